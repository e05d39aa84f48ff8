//! N01-N05: the network, with real peers and scripted ones.
use crate::frames::F;
use crate::netbase::*;
use crate::util::*;
use kompact::prelude::*;
use kompact_net::{NetworkStatus, NetworkStatusRequest};
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::net::{SocketAddr, TcpListener, UdpSocket};
use std::sync::Arc;
use std::time::{Duration, Instant};

const QUIET_FOR: Duration = Duration::from_secs(50);

pub struct Cx<'a> {
    pub rep: &'a Arc<Report>,
    pub case: u64,
    pub seed: u64,
    pub log: Vec<String>,
    pub failed: bool,
}
impl<'a> Cx<'a> {
    pub fn new(rep: &'a Arc<Report>, case: u64, seed: u64) -> Self {
        Cx { rep, case, seed, log: vec![], failed: false }
    }
    pub fn note(&mut self, s: String) {
        self.log.push(s);
    }
    pub fn fail(&mut self, sig: &str, detail: String) {
        self.failed = true;
        self.rep.violation(sig, self.case, detail, json!({"seed": self.seed, "log": self.log}));
    }
    /// Panics of the library's own threads.
    pub fn panics(&mut self, allowed: bool) {
        let p = take_panics();
        if !p.is_empty() && !allowed {
            self.fail("network-panic", format!("{:?}", p));
        }
    }
}
fn short_bytes(b: &[u8]) -> String {
    format!("{}b {:02x?}", b.len(), &b[..b.len().min(24)])
}

// ------------------------------------------------------------------ N03

#[derive(Debug)]
enum Act {
    Send(Vec<u8>),
    /// Read frames for some ms
    Read(u64),
    Sleep(u64),
    Rst,
    Close,
    HalfClose,
    Keep,
}
fn hostile_addr(rng: &mut Rng, a: SocketAddr) -> SocketAddr {
    match rng.below(6) {
        0 => a,
        1 => ([0, 0, 0, 0], 0).into(),
        2 => ([127, 0, 0, 1], 0).into(),
        3 => "[::1]:4711".parse().unwrap(),
        4 => ([10, 255, 255, 1], 9).into(),
        _ => ([127, 9, 9, rng.below(250) as u8 + 1], rng.range(1, 65535) as u16).into(),
    }
}
fn hostile_frame(rng: &mut Rng, a: SocketAddr, me: SocketAddr) -> Vec<u8> {
    let from = path_at(me, "evil");
    let to = sink_at(a);
    let mut v = match rng.below(16) {
        0 => frame(&F::Hello(me)),
        1 => frame(&F::Hello(hostile_addr(rng, a))),
        2 => frame(&F::Start(me, rng.next() as u128)),
        3 => frame(&F::Start(hostile_addr(rng, a), rng.next() as u128)),
        4 => frame(&F::Ack),
        5 => frame(&F::Bye),
        6 => {
            let n = rng.range(1, 200);
            frame(&F::Data(rng.bytes(n)))
        }
        7 => {
            // a message that is cut short or altered
            let mut w = wire(&from, &to, &Blob::new(99, rng.next(), 50));
            if rng.chance(1, 2) {
                let n = rng.range(1, w.len() - 1);
                w.truncate(n);
            } else {
                for _ in 0..rng.range(1, 4) {
                    let i = rng.below(w.len());
                    w[i] = rng.next() as u8;
                }
            }
            frame(&F::Data(w))
        }
        8 => frame(&F::Data(wire(&from, &path_at(a, "nobody"), &Blob::new(99, 1, 10)))),
        9 => {
            // other types with and without content
            let mut v = 0xC0A1BA11u32.to_be_bytes().to_vec();
            let n = *rng.pick(&[0usize, 0, 1, 8, 40]);
            v.extend_from_slice(&(n as u32).to_be_bytes());
            v.push(*rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255]));
            v.extend_from_slice(&rng.bytes(n));
            v
        }
        10 => {
            // announces far more than it sends
            let mut v = 0xC0A1BA11u32.to_be_bytes().to_vec();
            v.extend_from_slice(&(*rng.pick(&[1000u32, 1 << 20, 1 << 31, u32::MAX])).to_be_bytes());
            v.push(*rng.pick(&[2u8, 2, 4, 5, 6, 7]));
            let n = rng.below(300);
            v.extend_from_slice(&rng.bytes(n));
            v
        }
        11 => {
            let n = rng.range(1, 400);
            rng.bytes(n)
        }
        12 => b"GET / HTTP/1.1\r\nHost: x\r\n\r\n".to_vec(),
        13 => {
            // a start or hello with surplus or missing content
            let good = frame(&if rng.chance(1, 2) { F::Start(me, 7) } else { F::Hello(me) });
            let mut c = good[9..].to_vec();
            if rng.chance(1, 2) {
                c.truncate(rng.below(c.len()));
            } else {
                let n = rng.range(1, 20);
                c.extend_from_slice(&rng.bytes(n));
            }
            let mut v = good[..4].to_vec();
            v.extend_from_slice(&(c.len() as u32).to_be_bytes());
            v.push(good[8]);
            v.extend_from_slice(&c);
            v
        }
        14 => frame(&F::Data(wire(&from, &to, &Blob::new(98, rng.next(), *rng.pick(&[0usize, 10, 1000, 5000]))))),
        _ => {
            let mut v = frame(&F::Start(me, rng.next() as u128));
            v.extend_from_slice(&frame(&F::Data(wire(&from, &to, &Blob::new(98, rng.next(), 10)))));
            v
        }
    };
    if rng.chance(1, 8) {
        let n = rng.below(v.len() + 1);
        v.truncate(n);
    }
    v
}
fn hostile_script(rng: &mut Rng, a: SocketAddr, me: SocketAddr, acceptor: bool) -> Vec<Act> {
    let mut v = vec![];
    // how far the handshake goes properly first
    let depth = rng.below(4);
    if acceptor {
        if depth >= 1 {
            v.push(Act::Send(frame(&F::Hello(me))));
            v.push(Act::Read(300));
        }
        if depth >= 2 {
            v.push(Act::Send(frame(&F::Ack)));
            v.push(Act::Read(5));
        }
    } else {
        if depth >= 1 {
            v.push(Act::Read(30));
        }
        if depth >= 2 {
            v.push(Act::Send(frame(&F::Start(me, rng.next() as u128))));
            v.push(Act::Read(30));
        }
    }
    for _ in 0..rng.range(0, 4) {
        match rng.below(6) {
            0 => v.push(Act::Sleep(rng.below(15) as u64)),
            1 => v.push(Act::Read(rng.below(15) as u64)),
            _ => v.push(Act::Send(hostile_frame(rng, a, me))),
        }
    }
    v.push(match rng.below(4) {
        0 => Act::Rst,
        1 => Act::Close,
        2 => Act::HalfClose,
        _ => Act::Keep,
    });
    v
}
fn act(mut r: Raw, script: &[Act], keep: &mut Vec<Raw>) {
    for s in script {
        match s {
            Act::Send(b) => {
                if !r.send(b) {
                    break;
                }
            }
            Act::Read(ms) => {
                let end = Instant::now() + Duration::from_millis(*ms);
                while Instant::now() < end && !r.eof {
                    r.fill(Duration::from_millis(*ms), 1 << 16);
                    if *ms >= 100 && r.pop().is_some() {
                        break;
                    }
                }
            }
            Act::Sleep(ms) => std::thread::sleep(Duration::from_millis(*ms)),
            Act::Rst => {
                r.rst();
                return;
            }
            Act::Close => return,
            Act::HalfClose => {
                let _ = r.s.shutdown(std::net::Shutdown::Write);
                keep.push(r);
                return;
            }
            Act::Keep => {
                keep.push(r);
                return;
            }
        }
    }
    keep.push(r);
}

/// A pair of well-behaved systems exchanging messages in both directions.
struct Pair<'a> {
    a: &'a Node,
    b: &'a Node,
    next: u64,
    /// of this pair alone: a system of an earlier case may still try to reach a port that is in use again
    tags: (u64, u64),
}
impl Pair<'_> {
    fn exchange(&mut self, cx: &mut Cx, rng: &mut Rng, n: usize, what: &str) -> bool {
        let (pa, pb) = (path_at(self.a.addr, "src"), path_at(self.b.addr, "src"));
        for _ in 0..n {
            let len = *rng.pick(&[0usize, 3, 100, 2000]);
            self.a.send(&self.b.sink_path(), &pa, self.tags.0, self.next, len);
            self.b.send(&self.a.sink_path(), &pb, self.tags.1, self.next, len);
            self.next += 1;
        }
        let want = self.next - 1;
        for (n, tag, dir) in [(self.b, self.tags.0, "A to B"), (self.a, self.tags.1, "B to A")] {
            if !n.inbox.wait_for(tag, want, QUIET_FOR) {
                let got = n.inbox.of(tag).last().map(|g| g.seq);
                cx.fail(
                    "healthy-peer-cut-off",
                    format!("{}: message {} {} did not arrive (last: {:?}); status at A {:?} at B {:?}", what, want, dir, got, self.a.stat.dump(), self.b.stat.dump()),
                );
                return false;
            }
        }
        true
    }
    /// Nothing happened to the connection between the two.
    fn undisturbed(&mut self, cx: &mut Cx, what: &str) -> bool {
        for (n, tag, peer) in [(self.b, self.tags.0, self.a.addr), (self.a, self.tags.1, self.b.addr)] {
            let got = n.inbox.of(tag);
            if let Err((sig, d)) = session_order(&got) {
                cx.fail(&format!("healthy-{}", sig), format!("{}: {}", what, d));
                return false;
            }
            let ss: HashSet<_> = got.iter().map(|g| g.session).collect();
            if ss.len() > 1 || got.len() as u64 != self.next {
                cx.fail("healthy-connection-replaced", format!("{}: {} sessions, {} of {} messages; status {:?}", what, ss.len(), got.len(), self.next, n.stat.dump()));
                return false;
            }
            let bad = std::mem::take(&mut *n.inbox.bad.lock().unwrap());
            if tag == self.tags.0 && !bad.is_empty() {
                cx.fail("healthy-corrupted", format!("{}: {:?}", what, bad));
                return false;
            }
            for s in n.stat.about(peer) {
                if !matches!(s, NetworkStatus::ConnectionEstablished(..)) {
                    cx.fail("healthy-connection-status", format!("{}: {:?}; {:?}", what, s, n.stat.dump()));
                    return false;
                }
            }
            if n.stat.log.lock().unwrap().iter().any(|s| matches!(s.s, NetworkStatus::CriticalNetworkFailure)) {
                cx.fail("network-failure", format!("{}: {:?}", what, n.stat.dump()));
                return false;
            }
        }
        true
    }
}

fn n03_case(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut cx = Cx::new(rep, case, seed);
    let mut cfg = gen_cfg(rng);
    cfg.chunk = cfg.chunk.max(512);
    cfg.max_chunks = (64 << 20) / cfg.chunk;
    cfg.retries = 5;
    cfg.retry_ms = 50;
    let a = Node::new(&cfg);
    let b = Node::new(&NodeCfg { retries: 5, retry_ms: 60_000, ..NodeCfg::default() });
    let mut keep: Vec<Raw> = vec![];
    let mut p = Pair { a: &a, b: &b, next: 0, tags: (1 + ((case + 1) << 16), 2 + ((case + 1) << 16)) };
    // only B connects, which has all the time it needs (simultaneous attempts are N01's matter)
    b.send(&a.sink_path(), &path_at(b.addr, "src"), p.tags.1, 0, 5);
    let mut ok = a.inbox.wait_for(p.tags.1, 0, QUIET_FOR);
    a.send(&b.sink_path(), &path_at(a.addr, "src"), p.tags.0, 0, 5);
    ok &= b.inbox.wait_for(p.tags.0, 0, QUIET_FOR);
    p.next = 1;
    if !ok {
        cx.fail("healthy-peer-cut-off", format!("no contact at all; A {:?} B {:?}", a.stat.dump(), b.stat.dump()));
    }
    let rounds = rng.range(4, 14);
    let mut sig = hash_bytes(b"n03");
    for round in 0..rounds {
        if !ok || cx.failed {
            break;
        }
        let what;
        match rng.below(8) {
            0 => {
                // datagrams
                let u = UdpSocket::bind("127.0.0.2:0").unwrap();
                let me = u.local_addr().unwrap();
                let n = rng.range(1, 4);
                for _ in 0..n {
                    let d = hostile_frame(rng, a.addr, me);
                    cx.note(format!("{} udp {}", round, short_bytes(&d)));
                    let _ = u.send_to(&d, a.addr);
                    rep.count("hostile datagrams", 1);
                    sig = mix(sig, 1000 + d.len() as u64);
                }
                what = "udp";
            }
            1 | 2 | 3 => {
                // A is made to connect to a hostile listener
                let l = TcpListener::bind("127.0.0.1:0").unwrap();
                let me = l.local_addr().unwrap();
                let script = hostile_script(rng, a.addr, me, true);
                cx.note(format!("{} accept {} {:?}", round, me, script.iter().map(brief).collect::<Vec<_>>()));
                for i in 0..rng.range(1, 3) {
                    a.send(&sink_at(me), &path_at(a.addr, "src"), 3, i as u64, 100);
                }
                if let Some(s) = accept_within(&l, QUIET_FOR) {
                    act(Raw::new(s), &script, &mut keep);
                    rep.count("hostile acceptors", 1);
                    // sometimes once more
                    if rng.chance(1, 3) {
                        if let Some(s) = accept_within(&l, Duration::from_millis(60)) {
                            let script = hostile_script(rng, a.addr, me, true);
                            cx.note(format!("{} accept again {:?}", round, script.iter().map(brief).collect::<Vec<_>>()));
                            act(Raw::new(s), &script, &mut keep);
                            rep.count("hostile acceptors", 1);
                        }
                    }
                } else {
                    cx.fail("never-connected", format!("A did not try to connect to {}", me));
                }
                what = "acceptor";
            }
            _ => {
                let me: SocketAddr = ([127, 0, 7, 7], rng.range(1024, 65000) as u16).into();
                let script = hostile_script(rng, a.addr, me, false);
                cx.note(format!("{} connect {:?}", round, script.iter().map(brief).collect::<Vec<_>>()));
                match Raw::connect(a.addr) {
                    Ok(r) => act(r, &script, &mut keep),
                    Err(e) => cx.fail("not-listening", format!("A refuses connections: {}", e)),
                }
                rep.count("hostile connectors", 1);
                what = "connector";
            }
        }
        for l in cx.log.last() {
            sig = mix(sig, hash_bytes(l.as_bytes()));
        }
        let n = rng.range(1, 4);
        ok = p.exchange(&mut cx, rng, n, what) && p.undisturbed(&mut cx, what);
        cx.panics(false);
    }
    if ok && !cx.failed {
        // correct peers still get through
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let me = l.local_addr().unwrap();
        match Raw::connect(a.addr).map_err(|e| e.to_string()).and_then(|mut r| r.handshake(me, 0xABCD + case as u128).map(|x| (r, x))) {
            Ok((mut r, x)) => {
                if x != a.addr {
                    cx.fail("wrong-hello", format!("Hello carries {} instead of {}", x, a.addr));
                }
                let w = wire(&path_at(me, "src"), &a.sink_path(), &Blob::new(5, 0, 700));
                r.frame(&F::Data(w));
                if !a.inbox.wait_for(5, 0, QUIET_FOR) {
                    cx.fail("correct-peer-shut-out", format!("a message of a correct new peer did not arrive; {:?}", a.stat.dump()));
                }
                keep.push(r);
            }
            Err(e) => cx.fail("correct-peer-shut-out", format!("{}; {:?}", e, a.stat.dump())),
        }
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let me = l.local_addr().unwrap();
        let end = Instant::now() + QUIET_FOR;
        let mut last = String::from("A does not connect any more");
        loop {
            if Instant::now() > end {
                cx.fail("correct-peer-shut-out", last);
                break;
            }
            // (an attempt that takes too long is abandoned, and too many of them are given up)
            a.send(&sink_at(me), &path_at(a.addr, "src"), 6, 0, 10);
            match accept_session(&l, me, Duration::from_secs(3)) {
                Some((mut r, ..)) => match r.read(Duration::from_secs(20)) {
                    In::Frame(F::Data(d)) => {
                        if let Err(e) = unwire(&d, &sink_at(me), &path_at(a.addr, "src")) {
                            cx.fail("correct-peer-corrupted", e);
                        }
                        break;
                    }
                    x => last = format!("got {:?} instead of the message", x),
                },
                None => {}
            }
        }
        cx.panics(false);
    }
    rep.count("healthy messages delivered", (a.inbox.len() + b.inbox.len()) as u64);
    rep.count("status events", (a.stat.len() + b.stat.len()) as u64);
    rep.eval(sig, true);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "log": cx.log, "healthy": p.next, "status": a.stat.dump()}));
    }
    drop(keep);
    a.close();
    b.close();
    cx.panics(false);
}
/// Peers that misbehave one after the other do not use up the places for connections.
fn n03_places(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut cx = Cx::new(rep, case, seed);
    let hard = rng.range(4, 12) as u32;
    let a = Node::new(&NodeCfg { retries: 3, retry_ms: 30, soft: hard, hard, ..NodeCfg::default() });
    let b = Node::new(&NodeCfg { retries: 5, retry_ms: 60_000, ..NodeCfg::default() });
    let mut p = Pair { a: &a, b: &b, next: 0, tags: (1 + ((case + 1) << 16), 2 + ((case + 1) << 16)) };
    // only B connects, which has all the time it needs (simultaneous attempts are N01's matter)
    b.send(&a.sink_path(), &path_at(b.addr, "src"), p.tags.1, 0, 5);
    let mut ok = a.inbox.wait_for(p.tags.1, 0, QUIET_FOR);
    a.send(&b.sink_path(), &path_at(a.addr, "src"), p.tags.0, 0, 5);
    ok &= b.inbox.wait_for(p.tags.0, 0, QUIET_FOR);
    p.next = 1;
    let mut sig = hash_bytes(b"n03places");
    for round in 0..(3 * hard) {
        if !ok || cx.failed {
            break;
        }
        let mut keep = vec![];
        if rng.chance(1, 4) {
            let l = TcpListener::bind("127.0.0.1:0").unwrap();
            let me = l.local_addr().unwrap();
            let script = hostile_script(rng, a.addr, me, true);
            a.send(&sink_at(me), &path_at(a.addr, "src"), 3, 0, 100);
            if let Some(s) = accept_within(&l, Duration::from_secs(3)) {
                cx.note(format!("{} accept {} {:?}", round, me, script.iter().map(brief).collect::<Vec<_>>()));
                act(Raw::new(s), &script, &mut keep);
                rep.count("hostile acceptors", 1);
            }
        } else {
            let me: SocketAddr = ([127, 0, 7, 7], rng.range(1024, 65000) as u16).into();
            let script = hostile_script(rng, a.addr, me, false);
            cx.note(format!("{} connect {:?}", round, script.iter().map(brief).collect::<Vec<_>>()));
            if let Ok(r) = Raw::connect(a.addr) {
                act(r, &script, &mut keep);
                rep.count("hostile connectors", 1);
            }
        }
        sig = mix(sig, hash_bytes(cx.log.last().map(|l| l.as_bytes()).unwrap_or(b"")));
        if rng.chance(1, 2) {
            for r in keep.drain(..) {
                r.rst();
            }
        }
    }
    if ok && !cx.failed {
        ok = p.exchange(&mut cx, rng, 3, "places") && p.undisturbed(&mut cx, "places");
    }
    if ok && !cx.failed {
        // all of them are gone, so all places but one are free again
        let mut good = vec![];
        let end = Instant::now() + QUIET_FOR;
        let ls: Vec<TcpListener> = (0..hard - 1).map(|_| TcpListener::bind("127.0.0.1:0").unwrap()).collect();
        let mut last = String::new();
        while good.len() < ls.len() && Instant::now() < end {
            let me = ls[good.len()].local_addr().unwrap();
            match Raw::connect(a.addr).map_err(|e| e.to_string()).and_then(|mut r| r.handshake(me, seed as u128 * 1000 + good.len() as u128).map(|x| (r, x))) {
                Ok((r, _)) => good.push(r),
                Err(e) => {
                    last = e;
                    std::thread::sleep(Duration::from_millis(30));
                }
            }
        }
        if good.len() < ls.len() {
            cx.fail("places-used-up", format!("only {} of {} correct peers get a connection: {}; {:?}", good.len(), ls.len(), last, a.stat.dump()));
        }
        rep.count("places free again", good.len() as u64);
    }
    cx.panics(false);
    rep.eval(sig, true);
    a.close();
    b.close();
    cx.panics(false);
}
fn brief(a: &Act) -> String {
    match a {
        Act::Send(b) => short_bytes(b),
        x => format!("{:?}", x),
    }
}

pub fn n03(rep: &Arc<Report>) {
    rep.rule("one case: two systems exchange messages while a scripted peer connects, accepts or sends datagrams; distinct by the scripts played");
    rep.assume("the hostile peer does not claim the address of a healthy peer (the protocol has no authentication) and does not exhaust the buffer pool by volume");
    rep.hang_limit(Duration::from_secs(120));
    rep.run_cases(6, 1.0, u64::MAX, |rep, case, seed| if case % 5 == 4 { n03_places(rep, case, seed) } else { n03_case(rep, case, seed) });
}

// ------------------------------------------------------------------ N02

/// What a stream sent by A to a scripted peer must look like.
struct StreamCheck {
    src: ActorPath,
    dst: ActorPath,
    /// highest complete message so far, per sender
    last: HashMap<u64, u64>,
    sessions: HashSet<u128>,
    messages: u64,
    bytes: u64,
}
struct SessionSeen {
    first: HashMap<u64, u64>,
    last: HashMap<u64, u64>,
    bye: bool,
    frames: u64,
}
impl SessionSeen {
    fn new() -> Self {
        SessionSeen { first: HashMap::new(), last: HashMap::new(), bye: false, frames: 0 }
    }
}
impl StreamCheck {
    /// Takes one frame of a session that has completed its handshake.
    fn frame(&mut self, cx: &mut Cx, s: &mut SessionSeen, f: In) -> bool {
        s.frames += 1;
        match f {
            In::Frame(F::Data(d)) => {
                if s.bye {
                    cx.fail("data-after-bye", "a message follows a Bye".into());
                    return false;
                }
                self.bytes += d.len() as u64;
                let b = match unwire(&d, &self.dst, &self.src) {
                    Ok(b) => b,
                    Err(e) => {
                        cx.fail("corrupt-message", format!("frame {} of the session: {}", s.frames, e));
                        return false;
                    }
                };
                self.messages += 1;
                if let Some(l) = s.last.insert(b.tag, b.seq) {
                    if b.seq != l + 1 {
                        let sig = if b.seq == l { "duplicate-in-session" } else if b.seq < l { "reordered-in-session" } else { "gap-in-session" };
                        cx.fail(sig, format!("sender {}: message {} follows {}", b.tag, b.seq, l));
                        return false;
                    }
                } else {
                    s.first.insert(b.tag, b.seq);
                }
                if let Some(l) = self.last.get(&b.tag) {
                    if b.seq <= *l {
                        cx.fail("delivered-again", format!("sender {}: message {} after {} had been delivered", b.tag, b.seq, l));
                        return false;
                    }
                }
                self.last.insert(b.tag, b.seq);
                true
            }
            In::Frame(F::Bye) => {
                s.bye = true;
                true
            }
            x => {
                cx.fail("not-a-whole-frame", format!("frame {} of the session is {:?}", s.frames, x));
                false
            }
        }
    }
}

fn n02_acceptor(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut cx = Cx::new(rep, case, seed);
    let cfg = NodeCfg { retries: 100, retry_ms: 25, ..gen_cfg(rng) };
    let a = Node::new(&cfg);
    let mode = rng.weighted(&[6, 2, 1]);
    let rcv = *rng.pick(&[0usize, 4096, 4096, 20_000]);
    let l = small_listener(rcv);
    let me = l.local_addr().unwrap();
    let (src, dst) = (path_at(a.addr, "src"), path_at(me, "x"));
    let mut sc = StreamCheck { src: src.clone(), dst: dst.clone(), last: HashMap::new(), sessions: HashSet::new(), messages: 0, bytes: 0 };
    let tags = rng.range(1, 3) as u64;
    let big = match rng.below(4) {
        0 => 200,
        1 => 5_000,
        2 => 70_000,
        _ => 300_000,
    };
    // the cost of a message is quadratic in its number of chunks
    let max_len = cfg.chunk * 60;
    let total = (match big {
        200 => 400,
        5_000 => 300,
        70_000 => 150,
        _ => 60,
    }) / tags;
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    // (seq, told at), per sender
    let told: Vec<Arc<std::sync::Mutex<Vec<Instant>>>> = (0..tags).map(|_| Default::default()).collect();
    let late = match mode {
        1 => Some(rng.below(300) as u64),
        _ => None,
    };
    let l = match late {
        Some(_) => {
            drop(l);
            None
        }
        None => Some(l),
    };
    let a = Arc::new(a);
    let mut hs = vec![];
    for t in 0..tags {
        let (a, src, dst, told, stop) = (a.clone(), src.clone(), dst.clone(), told[t as usize].clone(), stop.clone());
        let mut r = Rng::new(mix(seed, 77 + t));
        let pause = r.below(3);
        hs.push(std::thread::spawn(move || {
            for seq in 0.. {
                if stop.load(std::sync::atomic::Ordering::SeqCst) {
                    break;
                }
                if seq >= total {
                    // a trickle, so that a dead connection is noticed
                    std::thread::sleep(Duration::from_millis(15));
                }
                told.lock().unwrap().push(Instant::now());
                let len = if r.chance(1, 3) { r.below(50) } else { r.below(if seq >= total { 200 } else { big.min(max_len) }) };
                a.send(&dst, &src, 10 + t, seq, len);
                if pause > 0 && r.chance(1, 6) {
                    std::thread::sleep(Duration::from_micros(r.below(4000 * pause) as u64));
                }
            }
        }));
    }
    let l = match (late, l) {
        (Some(ms), _) => {
            std::thread::sleep(Duration::from_millis(ms));
            TcpListener::bind(me).ok()
        }
        (_, l) => l,
    };
    let Some(l) = l else {
        // someone else took the port
        rep.inconclusive("port reuse");
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        for h in hs {
            let _ = h.join();
        }
        return;
    };
    let cuts = if mode == 1 { 0 } else { rng.range(1, 6) };
    let mut sig = mix(hash_bytes(b"n02a"), mode as u64);
    let mut done = 0;
    let mut foreign = 0;
    let mut keep = vec![];
    let deadline = Instant::now() + Duration::from_secs(60);
    while !cx.failed {
        if Instant::now() > deadline {
            cx.fail("no-session", format!("no complete session in 60 s; status {:?}", a.stat.dump()));
            break;
        }
        let last_session = done >= cuts;
        let Some(s) = accept_within(&l, Duration::from_secs(60)) else {
            cx.fail("not-retried", format!("no connection attempt within 30 s after {} cuts; status {:?}", done, a.stat.dump()));
            break;
        };
        let mut r = Raw::new(s);
        if !last_session && rng.chance(1, 4) {
            // cut during the handshake
            let stage = rng.below(4);
            cx.note(format!("cut handshake at {}", stage));
            let hello = frame(&F::Hello(me));
            match stage {
                0 => {}
                1 => {
                    r.send(&hello[..rng.below(hello.len())]);
                }
                2 => {
                    r.send(&hello);
                }
                _ => {
                    r.send(&hello);
                    r.fill(Duration::from_millis(200), 10);
                    r.send(&frame(&F::Ack)[..rng.range(1, 8)]);
                }
            }
            if rng.chance(1, 2) { r.rst() } else { drop(r) }
            sig = mix(sig, 50 + stage as u64);
            rep.count("handshakes cut", 1);
            done += 1;
            continue;
        }
        let slow = rng.chance(1, 4);
        let hello = frame(&F::Hello(me));
        if slow {
            r.send_slow(&hello, rng);
        } else {
            r.send(&hello);
        }
        let id = match r.read(Duration::from_secs(60)) {
            In::Frame(F::Start(x, id)) if x == a.addr => id,
            // superseded by a newer attempt
            In::Eof => continue,
            // another case's node which looks for a peer that had this port
            In::Frame(F::Start(x, _)) if x != a.addr && foreign < 3 => {
                foreign += 1;
                continue;
            }
            x => {
                cx.fail("no-start", format!("the session starts with {:?} instead of Start({})", x, a.addr));
                break;
            }
        };
        if !sc.sessions.insert(id) {
            cx.fail("session-id-reused", format!("session {:x}", id));
            break;
        }
        let ack = frame(&F::Ack);
        if !(if slow { r.send_slow(&ack, rng) } else { r.send(&ack) }) {
            continue;
        }
        rep.count("sessions", 1);
        let mut seen = SessionSeen::new();
        if last_session {
            // from here on nothing is lost any more
            let t0 = Instant::now();
            let mut ended = false;
            let mut fence: Option<Vec<u64>> = None;
            loop {
                match r.read(Duration::from_millis(20)) {
                    In::Timeout => {}
                    In::Eof => {
                        // only if it was superseded during the handshake
                        if seen.frames > 0 || t0.elapsed() > Duration::from_secs(5) {
                            cx.fail("healthy-session-lost", format!("A closed the last session after {} frames; status {:?}", seen.frames, a.stat.dump()));
                        }
                        ended = true;
                        break;
                    }
                    f => {
                        if !sc.frame(&mut cx, &mut seen, f) {
                            ended = true;
                            break;
                        }
                    }
                }
                if fence.is_none() && told.iter().all(|t| t.lock().unwrap().len() as u64 >= total) && t0.elapsed() > Duration::from_millis(50) {
                    stop.store(true, std::sync::atomic::Ordering::SeqCst);
                    for h in hs.drain(..) {
                        let _ = h.join();
                    }
                    fence = Some(told.iter().map(|t| t.lock().unwrap().len() as u64 - 1).collect());
                }
                if let Some(f) = &fence {
                    if (0..tags).all(|t| seen.last.get(&(10 + t)) == Some(&f[t as usize])) {
                        break;
                    }
                }
                if t0.elapsed() > Duration::from_secs(60) {
                    cx.fail("messages-stuck", format!("last messages {:?} expected {:?}; status {:?}", seen.last, fence, a.stat.dump()));
                    ended = true;
                    break;
                }
            }
            if ended && !cx.failed {
                continue;
            }
            if !cx.failed {
                // messages sent after the last loss was reported have not been lost with it
                let lost_at = a
                    .stat
                    .log
                    .lock()
                    .unwrap()
                    .iter()
                    .filter(|s| matches!(s.s, NetworkStatus::ConnectionLost(..) | NetworkStatus::ConnectionClosed(..)))
                    .map(|s| s.at)
                    .max();
                for t in 0..tags {
                    let told = told[t as usize].lock().unwrap();
                    let must = match lost_at {
                        None if cuts == 0 => 0,
                        None => continue,
                        Some(at) => told.iter().position(|x| *x > at).unwrap_or(told.len()) as u64,
                    };
                    let first = seen.first.get(&(10 + t)).copied().unwrap_or(u64::MAX);
                    if first > must && (must as usize) < told.len() {
                        cx.fail("waiting-message-lost", format!("sender {}: message {} was sent after the loss had been reported but the new session starts with {}; {:?}", 10 + t, must, first, a.stat.dump()));
                    }
                    rep.count("suffixes checked", 1);
                }
                // and nothing more comes
                if let In::Frame(f) = r.read(Duration::from_millis(5)) {
                    cx.fail("surplus-frame", format!("{:?} after the last message", f));
                }
            }
            keep.push(r);
            break;
        }
        // read up to some position, then cut
        let limit = match rng.below(5) {
            0 => 0,
            1 => rng.below(60),
            2 => rng.below(3000),
            3 => rng.below(100_000),
            _ => rng.below(2_000_000),
        };
        let end = Instant::now() + Duration::from_millis(*rng.pick(&[5u64, 20, 60, 200]));
        let mut read = 0;
        while read < limit && Instant::now() < end && !r.eof {
            if let Some(n) = r.fill(Duration::from_millis(5), (limit - read).min(1 << 16)) {
                read += n;
            }
            let mut bad = false;
            while let Some(f) = r.pop() {
                if !sc.frame(&mut cx, &mut seen, f) {
                    bad = true;
                    break;
                }
            }
            if bad {
                break;
            }
        }
        if cx.failed {
            break;
        }
        if r.eof && !seen.bye && read > 0 {
            cx.fail("healthy-session-lost", format!("A closed an undisturbed session after {} bytes; status {:?}", read, a.stat.dump()));
            break;
        }
        // let A's socket fill up
        if rng.chance(1, 2) {
            std::thread::sleep(Duration::from_millis(rng.below(40) as u64));
        }
        let how = rng.below(6);
        cx.note(format!("cut {} after {} bytes, {} frames (kind {})", done, read, seen.frames, how));
        match how {
            0 => r.rst(),
            1 => drop(r),
            2 => {
                // a graceful close: everything up to A's Bye is whole
                // (with a window large enough for A to finish soon)
                r.window(1 << 20);
                r.frame(&F::Bye);
                let t0 = Instant::now();
                let mut progress = Instant::now();
                let mut superseded = false;
                while !seen.bye && !cx.failed {
                    if progress.elapsed() > Duration::from_secs(60) {
                        cx.fail("no-bye", "no Bye within 20 s".into());
                        break;
                    }
                    if t0.elapsed() > Duration::from_secs(120) {
                        rep.inconclusive("closing takes very long");
                        cx.failed = true;
                        break;
                    }
                    match r.read(Duration::from_millis(100)) {
                        In::Timeout => {}
                        In::Eof if seen.frames == 0 && !a.stat.established(id) => {
                            // superseded before A read the Ack
                            superseded = true;
                            break;
                        }
                        In::Eof => {
                            cx.fail("no-bye", format!("the stream ends without a Bye ({:?}) {:?} after the peer's; status {:?}", r.error, t0.elapsed(), a.stat.dump()));
                        }
                        f => {
                            progress = Instant::now();
                            sc.frame(&mut cx, &mut seen, f);
                        }
                    }
                }
                if !superseded {
                    rep.count("graceful closes", 1);
                }
                keep.push(r);
            }
            // a graceful close that is not waited for
            3 => {
                r.frame(&F::Bye);
                r.rst();
            }
            4 => {
                r.frame(&F::Bye);
                if rng.chance(1, 2) {
                    std::thread::sleep(Duration::from_micros(rng.below(300) as u64));
                }
                drop(r);
            }
            _ => {
                let _ = r.s.shutdown(std::net::Shutdown::Both);
                keep.push(r);
            }
        }
        sig = mix(sig, mix(how as u64, read as u64));
        rep.count("sessions cut", 1);
        done += 1;
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    for h in hs {
        let _ = h.join();
    }
    if let Err(e) = status_ok(&a.stat.about(me)) {
        let d = a.stat.dump();
        cx.fail("status-inconsistent", format!("{}: {:?}", e, d));
    }
    cx.panics(false);
    rep.count("messages checked", sc.messages);
    rep.count("bytes checked", sc.bytes);
    rep.count("status events", a.stat.len() as u64);
    rep.eval(mix(sig, sc.messages), true);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "script": cx.log, "messages": sc.messages, "status": a.stat.dump()}));
    }
    drop(keep);
    drop(l);
    if let Ok(a) = Arc::try_unwrap(a) {
        a.close();
    }
}

/// Sends numbered messages to a peer from its own thread until told to stop.
struct Feeder {
    sent: Arc<std::sync::atomic::AtomicU64>,
    stop: Arc<std::sync::atomic::AtomicBool>,
    h: Option<std::thread::JoinHandle<()>>,
}
impl Feeder {
    fn new(a: &Arc<Node>, dst: &ActorPath, src: &ActorPath, tag: u64, seed: u64, big: usize) -> Feeder {
        let sent = Arc::new(std::sync::atomic::AtomicU64::new(0));
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (a, dst, src, s2, st2) = (a.clone(), dst.clone(), src.clone(), sent.clone(), stop.clone());
        let mut r = Rng::new(mix(seed, 900 + tag));
        let h = std::thread::spawn(move || {
            let mut bytes = 0;
            for seq in 0.. {
                if st2.load(std::sync::atomic::Ordering::SeqCst) {
                    break;
                }
                // (serialising gets slow if many chunks are waiting to be written)
                let len = if seq > 400 || bytes > 40 * big || r.chance(1, 3) { r.below(50) } else { r.below(big) };
                bytes += len;
                a.send(&dst, &src, tag, seq, len);
                s2.store(seq + 1, std::sync::atomic::Ordering::SeqCst);
                std::thread::sleep(if seq > 400 { Duration::from_millis(3) } else { Duration::from_micros(r.below(1500) as u64) });
            }
        });
        Feeder { sent, stop, h: Some(h) }
    }
    fn stop(&mut self) -> u64 {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
        self.sent.load(std::sync::atomic::Ordering::SeqCst)
    }
}
impl Drop for Feeder {
    fn drop(&mut self) {
        self.stop();
    }
}

/// The peer re-establishes the lost sessions itself.
fn n02_connector(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut cx = Cx::new(rep, case, seed);
    let cfg = NodeCfg { retries: 200, retry_ms: *rng.pick(&[20u64, 100]), ..gen_cfg(rng) };
    let a = Arc::new(Node::new(&cfg));
    let me = small_listener(0).local_addr().unwrap();
    let (src, dst) = (path_at(a.addr, "src"), path_at(me, "x"));
    let mut sc = StreamCheck { src: src.clone(), dst: dst.clone(), last: HashMap::new(), sessions: HashSet::new(), messages: 0, bytes: 0 };
    let big = (*rng.pick(&[100usize, 3_000, 40_000])).min(cfg.chunk * 40);
    let tags = rng.range(1, 3) as u64;
    let mut feeders: Vec<Feeder> = (0..tags).map(|t| Feeder::new(&a, &dst, &src, 10 + t, seed, big)).collect();
    let cuts = rng.range(1, 6);
    let mut keep = vec![];
    let mut sig = hash_bytes(b"n02c");
    let (mut overlap, mut old, mut next_id): (Option<Raw>, Option<(Raw, usize)>, Option<u128>) = (None, None, None);
    let mut done = 0;
    let end = Instant::now() + Duration::from_secs(60);
    while !cx.failed && done <= cuts {
        if Instant::now() > end {
            cx.fail("no-session", format!("the peer cannot establish a session: {:?}", a.stat.dump()));
            break;
        }
        std::thread::sleep(Duration::from_micros(rng.below(20_000) as u64));
        // the next session may have been begun while the last one was still up
        let (begun, mut r) = match overlap.take() {
            Some(r) => (true, r),
            None => match Raw::connect(a.addr) {
                Ok(r) => (false, r),
                Err(_) => continue,
            },
        };
        let id = u128::MAX - rng.below(1 << 20) as u128 - ((done as u128) << 64);
        match if begun { In::Frame(F::Hello(a.addr)) } else { r.read(Duration::from_secs(60)) } {
            In::Frame(F::Hello(x)) if x == a.addr => {}
            In::Eof => continue,
            x => {
                cx.fail("no-hello", format!("the handshake starts with {:?}", x));
                break;
            }
        }
        if !begun && rng.chance(1, 5) {
            // cut before or during Start
            let st = frame(&F::Start(me, id));
            r.send(&st[..rng.below(st.len())]);
            if rng.chance(1, 2) { r.rst() } else { drop(r) }
            rep.count("handshakes cut", 1);
            continue;
        }
        if begun {
            // the beginning has been sent already
            let id = next_id.unwrap();
            let st = frame(&F::Start(me, id));
            let gone: Option<(Raw, usize)> = old.take();
            if let Some((o, how)) = gone {
                match how {
                    0 => o.rst(),
                    1 => drop(o),
                    _ => {
                        let _ = o.s.shutdown(std::net::Shutdown::Both);
                        keep.push(o);
                    }
                }
            }
            r.send(&st[st.len() - 3..]);
            rep.count("sessions begun before the end of the last", 1);
        } else {
            r.frame(&F::Start(me, id));
        }
        let id = if begun { next_id.take().unwrap() } else { id };
        match r.read(Duration::from_secs(60)) {
            In::Frame(F::Ack) => {}
            In::Eof => continue,
            x => {
                cx.fail("no-ack", format!("the session starts with {:?} instead of an Ack", x));
                break;
            }
        }
        sc.sessions.insert(id);
        rep.count("sessions", 1);
        let last_session = done == cuts;
        let mut seen = SessionSeen::new();
        let t0 = Instant::now();
        let stop_at = if last_session { None } else { Some(rng.below(60_000)) };
        let mut told: Option<Vec<u64>> = None;
        let mut read = 0;
        loop {
            let f = r.read(Duration::from_millis(10));
            match f {
                In::Timeout => {}
                In::Eof => {
                    cx.fail("healthy-session-lost", format!("A closed an undisturbed session after {} frames: {:?}", seen.frames, a.stat.dump()));
                    break;
                }
                f => {
                    if let In::Frame(F::Data(d)) = &f {
                        read += d.len();
                    }
                    if !sc.frame(&mut cx, &mut seen, f) {
                        break;
                    }
                }
            }
            match stop_at {
                Some(n) => {
                    if read > n || t0.elapsed() > Duration::from_millis(80) {
                        break;
                    }
                }
                None => {
                    if told.is_none() && t0.elapsed() > Duration::from_millis(100) {
                        told = Some(feeders.iter_mut().map(|f| f.stop() - 1).collect());
                    }
                    if let Some(x) = &told
                        && (0..tags).all(|t| seen.last.get(&(10 + t)) == Some(&x[t as usize]))
                    {
                        break;
                    }
                    if t0.elapsed() > Duration::from_secs(60) {
                        cx.fail("messages-stuck", format!("last messages {:?}, sent {:?}: {:?}", seen.last, told, a.stat.dump()));
                        break;
                    }
                }
            }
        }
        if !cx.failed && !a.stat.wait(Duration::from_secs(60), |l| l.iter().any(|s| matches!(&s.s, NetworkStatus::ConnectionEstablished(_, x) if sid(x) == id))) {
            cx.fail("unannounced-session", format!("session {:x}: {:?}", id, a.stat.dump()));
        }
        sig = mix(sig, mix(read as u64, seen.frames));
        let mut next = None;
        if !last_session && rng.chance(1, 3) && let Ok(mut n) = Raw::connect(a.addr) {
            if rng.chance(1, 2) {
                // (what has been received in a session decides what becomes of it)
                r.frame(&F::Data(vec![0; rng.below(30)]));
            }
            if let In::Frame(F::Hello(x)) = n.read(Duration::from_secs(60)) && x == a.addr {
                let nid = id.wrapping_sub(1 + rng.below(1 << 20) as u128).wrapping_sub(1 << 64);
                let st = frame(&F::Start(me, nid));
                n.send(&st[..st.len() - 3]);
                next_id = Some(nid);
                next = Some(n);
            }
        }
        if last_session {
            keep.push(r);
        } else if next.is_some() {
            overlap = next;
            old = Some((r, rng.below(3)));
            rep.count("sessions cut", 1);
        } else {
            match rng.below(3) {
                0 => r.rst(),
                1 => drop(r),
                _ => {
                    let _ = r.s.shutdown(std::net::Shutdown::Both);
                    keep.push(r);
                }
            }
            rep.count("sessions cut", 1);
        }
        done += 1;
    }
    for f in &mut feeders {
        f.stop();
    }
    if let Err(e) = status_ok(&a.stat.about(me)) {
        let d = a.stat.dump();
        cx.fail("status-inconsistent", format!("{}: {:?}", e, d));
    }
    cx.panics(false);
    rep.count("messages checked", sc.messages);
    rep.count("bytes checked", sc.bytes);
    rep.count("status events", a.stat.len() as u64);
    rep.eval(mix(sig, sc.messages), true);
    drop(feeders);
    drop(keep);
    if let Ok(a) = Arc::try_unwrap(a) {
        a.close();
    }
}

/// Nobody answers within the retry limit.
fn n02_give_up(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut cx = Cx::new(rep, case, seed);
    let cfg = NodeCfg { retries: rng.range(1, 5) as u8, retry_ms: *rng.pick(&[20u64, 40]), ..gen_cfg(rng) };
    let a = Node::new(&cfg);
    let me = small_listener(0).local_addr().unwrap();
    let (src, dst) = (path_at(a.addr, "src"), path_at(me, "x"));
    let old = if cfg.retries == 1 { 1 } else { rng.range(1, 20) as u64 };
    let t0 = Instant::now();
    for seq in 0..old {
        a.send(&dst, &src, 10, seq, rng.below(300));
    }
    // the dispatcher must have seen all of them before it can have given up
    a.send(&a.sink_path(), &src, 12, 0, 1);
    if !a.inbox.wait_for(12, 0, Duration::from_secs(60)) {
        cx.fail("local-message-lost", "a message to the same system does not arrive while a peer is unreachable".into());
    }
    if old > 1 && t0.elapsed() > Duration::from_millis(cfg.retry_ms * (cfg.retries as u64 - 1)) {
        rep.inconclusive("too slow to send everything within the retry limit");
        a.close();
        return;
    }
    let dropped = |l: &[Stat]| l.iter().filter(|s| matches!(&s.s, NetworkStatus::ConnectionDropped(p) if p.socket_address() == me)).count();
    if !a.stat.wait(Duration::from_secs(60), |l| dropped(l) > 0) {
        if a.stat.about(me).iter().any(|s| matches!(s, NetworkStatus::ConnectionEstablished(..))) {
            rep.inconclusive("port reuse");
            a.close();
            return;
        }
        cx.fail("not-given-up", format!("{} attempts every {} ms, no ConnectionDropped after 20 s: {:?}", cfg.retries, cfg.retry_ms, a.stat.dump()));
    }
    let least = Duration::from_millis(cfg.retry_ms * (cfg.retries as u64 - 1));
    if t0.elapsed() < least {
        cx.fail("given-up-early", format!("after {:?}, {} attempts every {} ms", t0.elapsed(), cfg.retries, cfg.retry_ms));
    }
    std::thread::sleep(Duration::from_millis(3 * cfg.retry_ms));
    match TcpListener::bind(me) {
        Err(_) => rep.inconclusive("port reuse"),
        Ok(l) => {
            if rng.chance(1, 2) && !cx.failed {
                // no more attempts without a reason
                if let Some(s) = accept_within(&l, Duration::from_millis(3 * cfg.retry_ms)) {
                    let mut r = Raw::new(s);
                    r.frame(&F::Hello(me));
                    if let In::Frame(F::Start(x, _)) = r.read(Duration::from_millis(500))
                        && x == a.addr
                    {
                        cx.fail("attempt-after-give-up", format!("{:?}", a.stat.dump()));
                    }
                }
            }
            // the peer has come up: new messages, and only these, get through
            let fresh = rng.range(1, 10) as u64;
            let sent_at = Instant::now();
            for seq in 0..fresh {
                a.send(&dst, &src, 11, seq, rng.below(300));
            }
            // (this thread has to answer within the retry limit, or the messages are rightly given up)
            let limit = Duration::from_millis(cfg.retry_ms * cfg.retries as u64 / 2);
            let mut slow = false;
            let mut next = 0;
            let end = Instant::now() + Duration::from_secs(60);
            'outer: while !cx.failed && next < fresh {
                if slow && dropped(&a.stat.log.lock().unwrap()) > 1 {
                    break;
                }
                if Instant::now() > end {
                    cx.fail("late-peer-not-reached", format!("{} of {} messages: {:?}", next, fresh, a.stat.dump()));
                    break;
                }
                // (three attempts are enough for a peer that answers promptly)
                let Some((mut r, from, _)) = accept_session(&l, me, Duration::from_secs(20)) else {
                    slow = true;
                    continue;
                };
                slow |= sent_at.elapsed() > limit;
                if from != a.addr {
                    continue;
                }
                while next < fresh {
                    match r.read(Duration::from_secs(40)) {
                        In::Frame(F::Data(d)) => match unwire(&d, &dst, &src) {
                            Ok(b) if b.tag == 11 && b.seq == next => next += 1,
                            Ok(_) if slow => break 'outer,
                            Ok(b) => {
                                cx.fail("unexpected-message", format!("message {}/{} instead of 11/{}", b.tag, b.seq, next));
                                break 'outer;
                            }
                            Err(e) => {
                                cx.fail("corrupt-message", e);
                                break 'outer;
                            }
                        },
                        In::Eof if next == 0 => break,
                        x => {
                            cx.fail("late-peer-not-reached", format!("{:?} after {} of {} messages: {:?}", x, next, fresh, a.stat.dump()));
                            break 'outer;
                        }
                    }
                }
            }
            let n = dropped(&a.stat.log.lock().unwrap());
            if slow && n > 1 {
                rep.inconclusive("too slow to answer within the retry limit");
            } else if n != 1 && !cx.failed {
                cx.fail("dropped-events", format!("{} ConnectionDropped events: {:?}", n, a.stat.dump()));
            }
        }
    }
    cx.panics(false);
    rep.count("connections given up", 1);
    rep.count("status events", a.stat.len() as u64);
    rep.eval(mix(hash_bytes(b"n02g"), seed), true);
    a.close();
}

fn n02_case(rep: &Arc<Report>, case: u64, seed: u64) {
    match case % 6 {
        0 => crate::mesh::mesh_case(rep, case, seed, crate::mesh::Plan::Cuts),
        3 => crate::mesh::mesh_case(rep, case, seed, if case % 12 == 3 { crate::mesh::Plan::Cuts } else { crate::mesh::Plan::Closes }),
        4 => n02_connector(rep, case, seed),
        5 => {
            if case % 12 == 5 {
                n02_give_up(rep, case, seed)
            } else {
                n02_connector(rep, case, seed)
            }
        }
        _ => n02_acceptor(rep, case, seed),
    }
}
pub fn n02(rep: &Arc<Report>) {
    rep.rule("one case: a system sends numbered messages to a scripted peer that cuts connections at chosen bytes; distinct by cut positions and traffic");
    rep.hang_limit(Duration::from_secs(150));
    rep.run_cases(6, 1.0, u64::MAX, n02_case);
}
