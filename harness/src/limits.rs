//! N06: limits on connections and buffers.
use crate::frames::F;
use crate::net::Cx;
use crate::netbase::*;
use crate::util::*;
use kompact::prelude::*;
use kompact_net::NetworkStatus;
use serde_json::json;
use std::collections::{HashSet, VecDeque};
use std::net::{SocketAddr, TcpListener};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const T: Duration = Duration::from_secs(60);
static SESSION: AtomicU64 = AtomicU64::new(1);
fn new_session() -> u128 {
    (0xA11u128 << 100) | SESSION.fetch_add(1, Ordering::Relaxed) as u128
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    /// it has connected and read our Hello
    HalfIn,
    /// we have connected to it
    HalfOut,
    Up,
    /// we have asked it to close
    Closing,
}
struct P {
    l: TcpListener,
    addr: SocketAddr,
    r: Option<Raw>,
    st: St,
    session: u128,
    /// messages sent by the node
    to: u64,
    /// the first one the peer has not read yet
    read: u64,
    from: u64,
}
impl P {
    fn new() -> P {
        let l = small_listener(0);
        let addr = l.local_addr().unwrap();
        P { l, addr, r: None, st: St::Idle, session: 0, to: 0, read: 0, from: 0 }
    }
    fn up_path(&self) -> ActorPath {
        sink_at(self.addr)
    }
    /// Reads the next message, which must be the expected one.
    fn data(&mut self, tag: u64, src: &ActorPath) -> Result<Option<F>, String> {
        let dst = self.up_path();
        match self.r.as_mut().unwrap().read(T) {
            In::Frame(F::Data(c)) => {
                let b = unwire(&c, &dst, src)?;
                if (b.tag, b.seq) != (tag, self.read) {
                    return Err(format!("got message {}/{} instead of {}/{}", b.tag, b.seq, tag, self.read));
                }
                self.read += 1;
                Ok(None)
            }
            In::Frame(f) => Ok(Some(f)),
            x => Err(format!("{:?} instead of message {}", x, self.read)),
        }
    }
    /// Reads all messages sent so far.
    fn catch_up(&mut self, tag: u64, src: &ActorPath) -> Result<(), String> {
        while self.read < self.to {
            if let Some(f) = self.data(tag, src)? {
                return Err(format!("{:?} instead of message {}", f, self.read));
            }
        }
        Ok(())
    }
}
fn soft_count(a: &Node) -> usize {
    a.stat.log.lock().unwrap().iter().filter(|s| matches!(s.s, NetworkStatus::SoftConnectionLimitExceeded)).count()
}
fn hard_count(a: &Node) -> usize {
    a.stat.log.lock().unwrap().iter().filter(|s| matches!(s.s, NetworkStatus::HardConnectionLimitReached)).count()
}
fn closed(a: &Node, id: u128) -> bool {
    a.stat.wait(T, |l| l.iter().any(|s| matches!(&s.s, NetworkStatus::ConnectionClosed(_, i) if i.as_u128() == id)))
}

struct World<'a> {
    a: Node,
    src: ActorPath,
    ps: Vec<P>,
    cx: Cx<'a>,
}
impl World<'_> {
    fn send(&mut self, p: usize, len: usize) {
        self.a.send(&self.ps[p].up_path(), &self.src, p as u64, self.ps[p].to, len);
        self.ps[p].to += 1;
    }
    /// the peer to the node
    fn recv(&mut self, p: usize, len: usize) {
        let src = path_at(self.ps[p].addr, "src");
        let f = frame(&F::Data(wire(&src, &self.a.sink_path(), &Blob::new(100 + p as u64, self.ps[p].from, len))));
        self.ps[p].r.as_mut().unwrap().send(&f);
        self.ps[p].from += 1;
    }
    fn arrived(&mut self, p: usize) {
        let n = self.ps[p].from;
        if n > 0 && !self.a.inbox.wait_for(100 + p as u64, n - 1, T) {
            self.cx.fail("message-lost", format!("message {} of peer {} does not arrive: {:?}", n - 1, p, self.a.stat.dump()));
        }
    }
    fn catch_up(&mut self, p: usize) {
        let src = self.src.clone();
        if let Err(e) = self.ps[p].catch_up(p as u64, &src) {
            self.cx.fail("message-lost", format!("peer {}: {}: {:?}", p, e, self.a.stat.dump()));
        }
    }
    /// A message in both directions.
    fn exchange(&mut self, p: usize, len: usize) {
        self.recv(p, len);
        self.arrived(p);
        self.send(p, len);
        self.catch_up(p);
    }
    fn hello(&mut self, p: usize) -> In {
        match Raw::connect(self.a.addr) {
            Ok(r) => {
                self.ps[p].r = Some(r);
                self.ps[p].r.as_mut().unwrap().read(T)
            }
            Err(e) => In::Bad(format!("{:?}", e)),
        }
    }
    fn finish_in(&mut self, p: usize) {
        let (addr, id) = (self.ps[p].addr, new_session());
        let r = self.ps[p].r.as_mut().unwrap();
        r.frame(&F::Start(addr, id));
        match r.read(T) {
            In::Frame(F::Ack) => {
                self.ps[p].session = id;
                self.ps[p].st = St::Up;
                if !self.a.stat.wait(T, |l| l.iter().any(|s| matches!(&s.s, NetworkStatus::ConnectionEstablished(_, i) if i.as_u128() == id))) {
                    self.cx.fail("not-established", format!("peer {}: {:?}", p, self.a.stat.dump()));
                }
            }
            x => self.cx.fail("handshake", format!("peer {} got {:?} instead of Ack: {:?}", p, x, self.a.stat.dump())),
        }
    }
    /// The peer closes its connection.
    fn bye(&mut self, p: usize) {
        self.catch_up(p);
        let r = self.ps[p].r.as_mut().unwrap();
        r.frame(&F::Bye);
        let x = r.read(T);
        if x != In::Frame(F::Bye) {
            self.cx.fail("no-bye", format!("peer {}: {:?} instead of Bye: {:?}", p, x, self.a.stat.dump()));
        }
        if !closed(&self.a, self.ps[p].session) {
            self.cx.fail("not-closed", format!("peer {}: {:?}", p, self.a.stat.dump()));
        }
        self.ps[p].r = None;
        self.ps[p].st = St::Idle;
    }
    fn bad(&mut self) {
        let b = self.a.inbox.bad.lock().unwrap().first().cloned();
        if let Some(b) = b {
            self.cx.fail("altered", b);
        }
        if self.a.stat.log.lock().unwrap().iter().any(|s| matches!(s.s, NetworkStatus::CriticalNetworkFailure)) {
            self.cx.fail("network-failure", format!("{:?}", self.a.stat.dump()));
        }
    }
}

// ------------------------------------------------------------------ soft limit

fn soft_case(rep: &Arc<Report>, case: u64, seed: u64, mut rng: Rng) {
    let rng = &mut rng;
    let soft = rng.range(1, 4);
    let n = soft + rng.range(1, 4);
    let cfg = NodeCfg { soft: soft as u32, hard: 100, retries: 20, retry_ms: 60_000, threads: rng.range(1, 3), ..NodeCfg::default() };
    let a = Node::new(&cfg);
    let src = path_at(a.addr, "src");
    let mut w = World { a, src, ps: (0..n).map(|_| P::new()).collect(), cx: Cx::new(rep, case, seed) };
    w.cx.note(format!("soft limit {} with {} peers", soft, n));
    // when each connection was last used: not before the first step, not after the second
    let mut used: Vec<(usize, usize)> = vec![(0, 0); n];
    let mut exceeded = 0usize;
    let mut late = 0u64;
    let mut exact = 0u64;
    let mut sig = hash_bytes(b"soft");
    let steps = rng.range(8, 40);
    for step in 0..steps {
        if w.cx.failed {
            break;
        }
        let p = rng.below(n);
        let st = w.ps[p].st;
        let op = rng.below(6);
        sig = mix(sig, (p * 8 + op) as u64);
        let up: Vec<usize> = (0..n).filter(|i| w.ps[*i].st == St::Up).collect();
        let mut new = None;
        match st {
            St::Idle if op < 3 => {
                w.cx.note(format!("{} peer {} connects", step, p));
                match w.hello(p) {
                    In::Frame(F::Hello(_)) => {
                        w.ps[p].st = St::HalfIn;
                    }
                    x => w.cx.fail("rejected", format!("peer {} got {:?} instead of Hello", p, x)),
                }
            }
            St::Idle => {
                w.cx.note(format!("{} connect to peer {}", step, p));
                w.ps[p].read = w.ps[p].to;
                w.send(p, rng.below(300));
                match accept_within(&w.ps[p].l, T) {
                    Some(s) => {
                        w.ps[p].r = Some(Raw::new(s));
                        w.ps[p].st = St::HalfOut;
                    }
                    None => w.cx.fail("no-connection", format!("nothing connects to peer {}: {:?}", p, w.a.stat.dump())),
                }
            }
            St::HalfIn => {
                w.cx.note(format!("{} start from peer {}", step, p));
                w.finish_in(p);
                if w.ps[p].st == St::Up {
                    new = Some(p);
                }
            }
            St::HalfOut => {
                w.cx.note(format!("{} peer {} accepts", step, p));
                let addr = w.ps[p].addr;
                match w.ps[p].r.as_mut().unwrap().accept(addr) {
                    Ok((_, id)) => {
                        w.ps[p].session = id;
                        w.ps[p].st = St::Up;
                        // what has been waiting for it
                        w.catch_up(p);
                        new = Some(p);
                    }
                    Err(x) => w.cx.fail("handshake", format!("peer {} got {:?} instead of Start", p, x)),
                }
            }
            St::Up if op == 0 => {
                w.cx.note(format!("{} peer {} closes", step, p));
                w.bye(p);
            }
            St::Up if op == 1 => {
                let len = rng.below(2000);
                w.cx.note(format!("{} exchange with {}", step, p));
                w.exchange(p, len);
            }
            St::Up => {
                // it does not read them yet
                let k = rng.range(1, 5);
                let big = rng.chance(1, 5);
                w.cx.note(format!("{} {} {} messages to {}", step, k, if big { "large" } else { "small" }, p));
                for _ in 0..k {
                    w.send(p, if big { rng.range(500_000, 1_500_000) } else { rng.below(1000) });
                }
                let q = if big { *rng.pick(&up) } else { p };
                if q == p {
                    w.catch_up(p);
                } else {
                    w.send(q, 10);
                    w.catch_up(q);
                    used[q] = (step, step + 1);
                }
            }
            St::Closing => {
                // the peer takes its time to answer; what it sends before is delivered
                let k = rng.below(4);
                w.cx.note(format!("{} {} more messages from {}", step, k, p));
                for _ in 0..k {
                    w.recv(p, rng.below(1500));
                    late += 1;
                }
                if op > 1 {
                    w.cx.note(format!("{} peer {} agrees", step, p));
                    let r = w.ps[p].r.as_mut().unwrap();
                    r.frame(&F::Bye);
                    if !closed(&w.a, w.ps[p].session) {
                        w.cx.fail("not-closed", format!("peer {} has answered the Bye: {:?}", p, w.a.stat.dump()));
                    }
                    let x = w.ps[p].r.as_mut().unwrap().read(T);
                    if x != In::Eof {
                        w.cx.fail("not-closed", format!("peer {} has answered the Bye and reads {:?}", p, x));
                    }
                    w.ps[p].r = None;
                    w.ps[p].st = St::Idle;
                }
                w.arrived(p);
            }
        }
        if w.cx.failed {
            break;
        }
        used[p] = (step, step + 1);
        if let Some(p) = new {
            let up: Vec<usize> = (0..n).filter(|i| w.ps[*i].st == St::Up).collect();
            if up.len() > soft {
                let others: Vec<usize> = up.iter().copied().filter(|x| *x != p).collect();
                // while it has not read everything it may be written to at any time
                let last = |x: usize| if w.ps[x].read < w.ps[x].to { (used[x].0, usize::MAX) } else { used[x] };
                let may: Vec<usize> = others.iter().copied().filter(|v| !others.iter().any(|u| last(*u).1 < last(*v).0)).collect();
                exceeded += 1;
                w.cx.note(format!("  connections to {:?}, one of {:?} must go", up, may));
                exact += (may.len() == 1) as u64;
                if !wait_until(T, || soft_count(&w.a) == exceeded) {
                    w.cx.fail("not-announced", format!("{} instead of {} SoftConnectionLimitExceeded: {:?}", soft_count(&w.a), exceeded, w.a.stat.dump()));
                    break;
                }
                // everything sent so far arrives before the Bye
                for x in up.iter().copied() {
                    if w.ps[x].read < w.ps[x].to {
                        w.catch_up(x);
                        used[x].1 = step + 1;
                    }
                }
                if w.cx.failed {
                    break;
                }
                let end = Instant::now() + T;
                let mut victim = None;
                while victim.is_none() && Instant::now() < end {
                    victim = up.iter().copied().find(|x| {
                        let r = w.ps[*x].r.as_mut().unwrap();
                        r.fill(Duration::from_millis(1), 4096);
                        !r.buf.is_empty() || r.eof
                    });
                }
                let Some(victim) = victim else {
                    w.cx.fail("none-closed", format!("{} connections are announced to exceed the limit but none is closed: {:?}", up.len(), w.a.stat.dump()));
                    break;
                };
                match w.ps[victim].r.as_mut().unwrap().read(T) {
                    In::Frame(F::Bye) if may.contains(&victim) => {}
                    x => w.cx.fail("wrong-connection-closed", format!("peer {} gets {:?}; only {:?} may be the least recently used of {:?}: {:?}", victim, x, may, others, w.a.stat.dump())),
                }
                w.ps[victim].st = St::Closing;
                rep.count("connections closed at the soft limit", 1);
            }
        }
        if soft_count(&w.a) != exceeded {
            w.cx.fail("not-announced", format!("{} instead of {} SoftConnectionLimitExceeded: {:?}", soft_count(&w.a), exceeded, w.a.stat.dump()));
        }
        w.cx.panics(false);
    }
    // the others are still there
    for p in 0..n {
        if !w.cx.failed && w.ps[p].st == St::Up {
            w.exchange(p, 50);
            rep.count("connections kept", 1);
        }
    }
    w.bad();
    for p in &w.ps {
        if let Err(e) = status_ok(&w.a.stat.about(p.addr)) {
            w.cx.fail("status", e);
        }
    }
    rep.count("messages from peers asked to close", late);
    rep.count("times only one could be the least recently used", exact);
    rep.count("messages", w.ps.iter().map(|p| p.read + p.from).sum());
    rep.count("status events", w.a.stat.len() as u64);
    rep.eval(sig, exceeded > 0);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "script": w.cx.log, "status": w.a.stat.dump()}));
    }
    w.ps.clear();
    let World { a, mut cx, .. } = w;
    a.close();
    cx.panics(false);
}
fn wait_until(t: Duration, f: impl Fn() -> bool) -> bool {
    let end = Instant::now() + t;
    while !f() {
        if Instant::now() > end {
            return false;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    true
}

// ------------------------------------------------------------------ hard limit

fn hard_case(rep: &Arc<Report>, case: u64, seed: u64, mut rng: Rng) {
    let rng = &mut rng;
    let hard = rng.range(1, 5);
    let n = hard + rng.range(1, 4);
    let cfg = NodeCfg { soft: 50, hard: hard as u32, retries: 250, retry_ms: 250, threads: rng.range(1, 3), ..NodeCfg::default() };
    let a = Node::new(&cfg);
    let src = path_at(a.addr, "src");
    let mut w = World { a, src, ps: (0..n).map(|_| P::new()).collect(), cx: Cx::new(rep, case, seed) };
    w.cx.note(format!("hard limit {} with {} peers", hard, n));
    let mut sig = hash_bytes(b"hard");
    let mut rejected = 0u64;
    // a peer the node would like to connect to
    let mut waiting: Option<usize> = None;
    let steps = rng.range(8, 40);
    for step in 0..steps {
        if w.cx.failed {
            break;
        }
        let mut p = rng.below(n);
        let op = rng.below(6);
        let used = (0..n).filter(|i| w.ps[*i].st != St::Idle).count();
        let full = used >= hard;
        if op == 0 && full {
            // make room
            if let Some(q) = (0..n).find(|i| w.ps[*i].st == St::Up) {
                p = q;
            }
        }
        sig = mix(sig, (p * 8 + op) as u64);
        match w.ps[p].st {
            St::Idle if waiting == Some(p) => {
                // it has to wait, the limit is still reached
                if let Some(_s) = accept_within(&w.ps[p].l, Duration::from_millis(60)) {
                    w.cx.fail("hard-limit-exceeded", format!("the node connects to peer {} with {} connections: {:?}", p, used, w.a.stat.dump()));
                }
            }
            St::Idle if op < 3 => {
                w.cx.note(format!("{} peer {} connects, {} in use", step, p, used));
                let before = hard_count(&w.a);
                match w.hello(p) {
                    In::Frame(F::Hello(_)) if !full => w.ps[p].st = St::HalfIn,
                    In::Eof if full => {
                        rejected += 1;
                        w.ps[p].r = None;
                        if !wait_until(T, || hard_count(&w.a) > before) {
                            w.cx.fail("not-announced", format!("no HardConnectionLimitReached: {:?}", w.a.stat.dump()));
                        }
                    }
                    x => w.cx.fail("hard-limit", format!("peer {} gets {:?} with {} of {} connections: {:?}", p, x, used, hard, w.a.stat.dump())),
                }
            }
            St::Idle if waiting.is_none() => {
                w.cx.note(format!("{} connect to peer {}, {} in use", step, p, used));
                let before = hard_count(&w.a);
                w.ps[p].read = w.ps[p].to;
                w.send(p, rng.below(300));
                if full {
                    if !wait_until(T, || hard_count(&w.a) > before) {
                        w.cx.fail("not-announced", format!("no HardConnectionLimitReached: {:?}", w.a.stat.dump()));
                    }
                    if accept_within(&w.ps[p].l, Duration::from_millis(30)).is_some() {
                        w.cx.fail("hard-limit-exceeded", format!("the node connects to peer {} with {} connections: {:?}", p, used, w.a.stat.dump()));
                    }
                    rejected += 1;
                    waiting = Some(p);
                } else {
                    waiting = Some(p);
                    served(rep, &mut w, &mut waiting);
                }
            }
            St::Idle => {}
            St::HalfIn => {
                w.cx.note(format!("{} start from peer {}", step, p));
                w.finish_in(p);
            }
            St::Up if op < 2 => {
                w.cx.note(format!("{} peer {} closes", step, p));
                w.bye(p);
                if waiting.is_some() && !w.cx.failed {
                    served(rep, &mut w, &mut waiting);
                }
            }
            St::Up => {
                let len = rng.below(2000);
                w.exchange(p, len);
            }
            _ => unreachable!(),
        }
        w.cx.panics(false);
    }
    for p in 0..n {
        if !w.cx.failed && w.ps[p].st == St::Up {
            w.exchange(p, 50);
            rep.count("connections kept", 1);
        }
    }
    w.bad();
    for p in &w.ps {
        if let Err(e) = status_ok(&w.a.stat.about(p.addr)) {
            w.cx.fail("status", e);
        }
    }
    rep.count("attempts beyond the hard limit", rejected);
    rep.count("messages", w.ps.iter().map(|p| p.read + p.from).sum());
    rep.count("status events", w.a.stat.len() as u64);
    rep.eval(sig, rejected > 0);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "script": w.cx.log, "status": w.a.stat.dump()}));
    }
    w.ps.clear();
    let World { a, mut cx, .. } = w;
    a.close();
    cx.panics(false);
}
/// There is room: the connection that had to wait is made.
fn served(rep: &Arc<Report>, w: &mut World, waiting: &mut Option<usize>) {
    let p = waiting.take().unwrap();
    let addr = w.ps[p].addr;
    match accept_session(&w.ps[p].l, addr, T) {
        Some((r, _, id)) => {
            w.ps[p].r = Some(r);
            w.ps[p].session = id;
            w.ps[p].st = St::Up;
            w.catch_up(p);
            rep.count("connections made when there was room again", 1);
        }
        None if w.a.stat.about(addr).iter().any(|s| matches!(s, NetworkStatus::ConnectionDropped(..))) => {
            rep.count("attempts that ran out of retries", 1);
            w.ps[p].read = w.ps[p].to;
        }
        None => w.cx.fail("no-connection", format!("nothing connects to peer {} although there is room: {:?}", p, w.a.stat.dump())),
    }
}

// ------------------------------------------------------------------ buffers

/// Keeps the messages it gets, and so their buffers.
#[derive(ComponentDefinition)]
struct Hoarder {
    ctx: ComponentContext<Self>,
    held: Arc<Mutex<VecDeque<NetMessage>>>,
}
ignore_lifecycle!(Hoarder);
impl Actor for Hoarder {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        self.held.lock().unwrap().push_back(m);
        Handled::OK
    }
}

fn buffer_case(rep: &Arc<Report>, case: u64, seed: u64, mut rng: Rng) {
    let rng = &mut rng;
    let chunk = *rng.pick(&[512usize, 1024, 4096]);
    let max = rng.range(5, 12);
    let retry_ms = *rng.pick(&[300u64, 1000, 1500]);
    let cfg = NodeCfg { chunk, min_free: 64, max_chunks: max, retries: 100, retry_ms, threads: rng.range(1, 3), ..NodeCfg::default() };
    let a = Node::new(&cfg);
    let held = Arc::new(Mutex::new(VecDeque::new()));
    let h2 = held.clone();
    let hoarder = a.sys.create(move || Hoarder { ctx: ComponentContext::uninitialised(), held: h2 });
    a.sys.start_notify(&hoarder).wait_timeout(T).expect("start");
    a.sys.register_by_alias(&hoarder, "hoarder").wait_timeout(T).expect("register").expect("register");
    let src = path_at(a.addr, "src");
    let peers = rng.range(1, 3);
    let mut w = World { a, src, ps: (0..peers).map(|_| P::new()).collect(), cx: Cx::new(rep, case, seed) };
    w.cx.note(format!("{} buffers of {} bytes, {} peers, retries every {} ms", max, chunk, peers, retry_ms));
    for p in 0..peers {
        if !matches!(w.hello(p), In::Frame(F::Hello(_))) {
            w.cx.fail("handshake", "no Hello".into());
        } else {
            w.finish_in(p);
        }
        if !w.cx.failed {
            w.exchange(p, 20);
        }
    }
    let mut sig = hash_bytes(format!("{:?}", cfg).as_bytes());
    let to = NamedPath::with_system(SystemPath::with_socket(Transport::Tcp, w.a.addr), vec!["hoarder".into()]).into();
    let mut hoarded: Vec<(u64, u64)> = vec![];
    let mut sent = vec![0u64; peers];
    let mut exhausted = false;
    for round in 0..rng.range(1, 3) {
        if w.cx.failed {
            break;
        }
        // 1. more than there are buffers for
        let n = max * rng.range(1, 4) + rng.below(5);
        w.cx.note(format!("round {}: {} messages are kept", round, n));
        for _ in 0..n {
            let p = rng.below(peers);
            let from = path_at(w.ps[p].addr, "src");
            let f = frame(&F::Data(wire(&from, &to, &Blob::new(200 + p as u64, sent[p], rng.range(chunk / 4, chunk)))));
            sent[p] += 1;
            w.ps[p].r.as_mut().unwrap().send(&f);
            sig = mix(sig, f.len() as u64);
        }
        let total: u64 = sent.iter().sum();
        let stuck = !wait_until(Duration::from_millis(150), || (hoarded.len() + held.lock().unwrap().len()) as u64 >= total);
        exhausted |= stuck;
        rep.count("times all buffers were kept", stuck as u64);
        if stuck && rng.chance(1, 2) {
            // what can't be sent is dropped, that does no harm
            let p = rng.below(peers);
            for _ in 0..rng.range(1, 4) {
                w.a.send(&path_at(w.ps[p].addr, "lost"), &w.src, 300, 0, rng.below(100));
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        // 2. they are given back
        let end = Instant::now() + T;
        while (hoarded.len() as u64) < total && Instant::now() < end {
            let ms: Vec<NetMessage> = held.lock().unwrap().drain(..).collect();
            if ms.is_empty() {
                std::thread::sleep(Duration::from_millis(2));
            }
            for m in ms {
                match m.data.try_deserialise::<Blob, BlobSer>() {
                    Ok(b) => {
                        if let Err(e) = check_blob(&b) {
                            w.cx.fail("altered", e);
                        }
                        hoarded.push((b.tag, b.seq));
                    }
                    Err(e) => w.cx.fail("altered", format!("{:?}", e)),
                }
            }
        }
        for p in 0..peers {
            let of: Vec<u64> = hoarded.iter().filter(|h| h.0 == 200 + p as u64).map(|h| h.1).collect();
            if of != (0..sent[p]).collect::<Vec<_>>() && !w.cx.failed {
                let lost = w.a.stat.log.lock().unwrap().iter().any(|s| matches!(s.s, NetworkStatus::ConnectionLost(..)));
                w.cx.fail("message-lost", format!("of {} messages of peer {} these arrive: {:?} (connection lost: {})", sent[p], p, of, lost));
            }
        }
        // 3. everything is as before
        let mut slow = vec![];
        let mut tail = HashSet::new();
        for _ in 0..4 {
            if w.cx.failed {
                break;
            }
            let p = rng.below(peers);
            let dst = w.ps[p].up_path();
            let at = Instant::now();
            w.send(p, rng.below(chunk / 2));
            // also those that could be sent
            let want = w.ps[p].to - 1;
            loop {
                match w.ps[p].r.as_mut().unwrap().read(T) {
                    In::Frame(F::Data(c)) => match unwire(&c, &dst, &w.src) {
                        Ok(b) if b.seq == want => break,
                        Ok(b) => {
                            w.cx.fail("message-lost", format!("{} instead of {}", b.seq, want));
                            break;
                        }
                        Err(_) if tail.insert(c.clone()) => {}
                        Err(_) => {}
                    },
                    x => {
                        w.cx.fail("message-lost", format!("{:?} instead of message {} to peer {}: {:?}", x, want, p, w.a.stat.dump()));
                        break;
                    }
                }
            }
            w.ps[p].read = w.ps[p].to;
            slow.push(at.elapsed());
        }
        let limit = Duration::from_millis(retry_ms * 7 / 10);
        if slow.iter().filter(|d| **d > limit).count() >= 3 && retry_ms >= 1000 {
            w.cx.fail("slow-after-exhaustion", format!("messages take {:?} after buffers were exhausted for a moment; retries every {} ms", slow, retry_ms));
        }
        rep.count("messages timed", slow.len() as u64);
    }
    w.bad();
    w.cx.panics(false);
    rep.count("messages", hoarded.len() as u64 + w.ps.iter().map(|p| p.read + p.from).sum::<u64>());
    rep.count("status events", w.a.stat.len() as u64);
    rep.eval(sig, exhausted);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "script": w.cx.log, "status": w.a.stat.dump()}));
    }
    w.ps.clear();
    drop(hoarder);
    held.lock().unwrap().clear();
    let World { a, mut cx, .. } = w;
    a.close();
    cx.panics(false);
}

pub fn n06(rep: &Arc<Report>) {
    rep.rule("one case: connections of hand-driven peers in both directions, also half-open ones, around a soft or a hard limit, or an actor that keeps messages until no buffers are left; distinct by the operations");
    rep.assume("using a connection means sending on it");
    rep.hang_limit(Duration::from_secs(150));
    rep.run_cases(6, 1.0, u64::MAX, |rep, case, seed| {
        let mut rng = Rng::new(seed);
        match rng.below(5) {
            0 | 1 => soft_case(rep, case, seed, rng),
            2 | 3 => hard_case(rep, case, seed, rng),
            _ => buffer_case(rep, case, seed, rng),
        }
    });
}
