//! N04: messages over UDP.
use crate::frames::F;
use crate::net::Cx;
use crate::netbase::*;
use crate::util::*;
use kompact::prelude::*;
use kompact_net::NetworkStatus;
use serde_json::json;
use std::collections::HashMap;
use std::net::{SocketAddr, UdpSocket};
use std::sync::Arc;
use std::time::{Duration, Instant};

const T: Duration = Duration::from_secs(20);
const MAX_UDP: usize = 65_507;

fn upath(a: SocketAddr, name: &str) -> ActorPath {
    NamedPath::with_system(SystemPath::with_socket(Transport::Udp, a), vec![name.into()]).into()
}
/// Bytes of the datagram carrying a blob of `len` bytes.
fn datagram_len(src: &ActorPath, dst: &ActorPath, len: usize) -> usize {
    frame(&F::Data(wire(src, dst, &Blob::new(0, 0, 0)))).len() + len
}
fn bad_datagram(rng: &mut Rng, src: &ActorPath, dst: &ActorPath) -> Vec<u8> {
    let good = frame(&F::Data(wire(src, dst, &Blob::new(0xBAD, rng.next() >> 32, rng.below(300)))));
    match rng.below(9) {
        0 => vec![],
        1 => {
            let n = rng.below(200);
            rng.bytes(n)
        }
        // ends anywhere
        2 | 3 => good[..rng.below(good.len())].to_vec(),
        // continues after its end
        4 => {
            let n = rng.range(1, 40);
            let mut g = frame(&F::Bye);
            g.extend(rng.bytes(n));
            g
        }
        // claims to be longer than it is
        5 => {
            let mut g = good.clone();
            let n = g.len() as u32 + *rng.pick(&[1u32, 8, 1000, 100_000]);
            g[4..8].copy_from_slice(&n.to_be_bytes());
            g
        }
        6 => frame(&match rng.below(4) {
            0 => F::Bye,
            1 => F::Ack,
            2 => F::Hello(([127, 0, 0, 1], 7).into()),
            _ => F::Start(([127, 0, 0, 1], 7).into(), 77),
        }),
        // a message that cannot be read
        7 => {
            let n = rng.below(60);
            frame(&F::Data(rng.bytes(n)))
        }
        _ => {
            let mut g = good.clone();
            let i = rng.below(4.min(g.len()));
            g[i] ^= 1 << rng.below(8);
            g
        }
    }
}

fn n04_case(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut cx = Cx::new(rep, case, seed);
    let mut cfgs: Vec<NodeCfg> = (0..2).map(|_| gen_cfg(rng)).collect();
    for c in &mut cfgs {
        // a datagram has to fit into a chunk, so does its header
        c.chunk = (*rng.pick(&[c.chunk, 70_000, 200, 600])).max(200);
        c.max_chunks = (64usize << 20) / c.chunk;
        c.retry_ms = 60_000;
    }
    let nodes: Vec<Node> = cfgs.iter().map(Node::new).collect();
    let raw = UdpSocket::bind("127.0.0.2:0").unwrap();
    raw.set_read_timeout(Some(T)).unwrap();
    let me = raw.local_addr().unwrap();
    let tcp = rng.chance(2, 3);
    // numbers the messages of every (sender, receiver); 2 stands for the raw socket
    let mut seqs: HashMap<u64, u64> = HashMap::new();
    let mut arrive: HashMap<u64, Vec<u64>> = HashMap::new();
    let mut never: Vec<(u64, u64)> = vec![];
    let mut tcp_sent = 0u64;
    let mut sig = hash_bytes(b"n04");
    let mut from_raw = 0u64;
    let rounds = rng.range(6, 30);
    for round in 0..rounds {
        if cx.failed {
            break;
        }
        // a few messages at once, so that no receive buffer overflows
        let batch = if rng.chance(1, 2) { 1 } else { rng.range(2, 8) };
        let cap = if batch == 1 { usize::MAX } else { 4_000 };
        let mut wait: Vec<(usize, u64, u64)> = vec![];
        let mut expect_raw: Vec<(u64, u64)> = vec![];
        for _ in 0..batch {
            let (i, j) = *rng.pick(&[(0usize, 1usize), (1, 0), (0, 1), (1, 0), (2, 0), (2, 1), (0, 2), (1, 2)]);
            let at = |x: usize| if x == 2 { me } else { nodes[x].addr };
            let src = upath(at(i), "src");
            let dst = upath(at(j), "sink");
            let limit = MAX_UDP.min(if j == 2 { usize::MAX } else { cfgs[j].chunk });
            let over = datagram_len(&src, &dst, 0);
            let room = limit - over.min(limit);
            if rng.chance(1, 3) && j != 2 {
                // something that is none
                let d = bad_datagram(rng, &upath(me, "src"), &upath(at(j), "sink"));
                sig = mix(sig, d.len() as u64);
                cx.note(format!("{} bad datagram to {}: {} bytes", round, j, d.len()));
                let _ = raw.send_to(&d, at(j));
                rep.count("malformed datagrams", 1);
                continue;
            }
            let len = match rng.below(6) {
                0 => rng.below(30),
                1 => rng.below(room.min(3_000) + 1),
                2 => room,
                3 => room.saturating_sub(rng.below(30)),
                // too large
                4 if batch == 1 || rng.chance(1, 3) => room + *rng.pick(&[1usize, 2, 10, 1000, 70_000]),
                _ => rng.below(room + 1),
            };
            let len = if len > cap && len <= room { rng.below(cap.min(room) + 1) } else { len };
            if datagram_len(&src, &dst, len) > MAX_UDP && i == 2 {
                continue;
            }
            // senders spend time quadratic in the number of chunks
            let len = if i != 2 { len.min(cfgs[i].chunk * 200) } else { len };
            let tag = 100 + (i * 3 + j) as u64;
            let seq = *seqs.entry(tag).or_insert(0);
            *seqs.get_mut(&tag).unwrap() += 1;
            let fits = len <= room;
            sig = mix(sig, mix(tag, len as u64));
            cx.note(format!("{} {}->{} #{} {} bytes{}", round, i, j, seq, len, if fits { "" } else { " (too large)" }));
            if i == 2 {
                let w = frame(&F::Data(wire(&src, &dst, &Blob::new(tag, seq, len))));
                let _ = raw.send_to(&w, at(j));
                from_raw += 1;
            } else {
                nodes[i].send(&dst, &src, tag, seq, len);
            }
            if fits {
                if j == 2 {
                    expect_raw.push((tag, seq));
                } else {
                    wait.push((j, tag, seq));
                    arrive.entry(tag).or_default().push(seq);
                }
                rep.count("deliverable messages", 1);
            } else {
                never.push((tag, seq));
                rep.count("messages too large", 1);
            }
        }
        if tcp && rng.chance(1, 3) {
            nodes[0].send(&nodes[1].sink_path(), &path_at(nodes[0].addr, "src"), 9, tcp_sent, rng.below(3000));
            tcp_sent += 1;
        }
        for (j, tag, seq) in wait {
            let end = Instant::now() + T;
            while !nodes[j].inbox.has(tag, seq) && Instant::now() < end {
                nodes[j].inbox.wait(Duration::from_millis(500), |g| g.iter().any(|g| g.tag == tag && g.seq == seq));
            }
            if !nodes[j].inbox.has(tag, seq) {
                let d = format!("message {} of {} (to {}) does not arrive; chunks {:?}", seq, tag, j, cfgs.iter().map(|c| c.chunk).collect::<Vec<_>>());
                cx.fail("deliverable-message-lost", d);
                break;
            }
        }
        // every datagram to the outside is one whole frame
        let mut buf = vec![0u8; 70_000];
        while !expect_raw.is_empty() && !cx.failed {
            match raw.recv_from(&mut buf) {
                Ok((n, from)) => {
                    let i = match nodes.iter().position(|x| x.addr == from) {
                        Some(i) => i,
                        None => continue,
                    };
                    match crate::frames::reference_decode(&buf[..n]) {
                        crate::frames::Ref::Frame(F::Data(d), m) if m == n => match unwire(&d, &upath(me, "sink"), &upath(nodes[i].addr, "src")) {
                            Ok(b) => match expect_raw.iter().position(|e| *e == (b.tag, b.seq)) {
                                Some(p) => {
                                    expect_raw.remove(p);
                                }
                                None => cx.fail("unexpected-datagram", format!("message {}/{} was not expected (sent twice?)", b.tag, b.seq)),
                            },
                            Err(e) => cx.fail("datagram-altered", e),
                        },
                        x => cx.fail("datagram-malformed", format!("{} bytes: {:?}", n, x).chars().take(200).collect()),
                    }
                }
                Err(_) => cx.fail("deliverable-message-lost", format!("{:?} to a plain socket do not arrive", expect_raw)),
            }
        }
        cx.panics(false);
    }
    if tcp && !cx.failed && tcp_sent > 0 && !nodes[1].inbox.wait_for(9, tcp_sent - 1, T) {
        cx.fail("tcp-disturbed", format!("the last of {} messages over TCP does not arrive", tcp_sent));
    }
    let mut total = 0;
    for (j, n) in nodes.iter().enumerate() {
        if let Some(b) = n.inbox.bad.lock().unwrap().first() {
            cx.fail("altered-message", b.clone());
        }
        let got = n.inbox.got.lock().unwrap().clone();
        let mut seen = std::collections::HashSet::new();
        for g in &got {
            if !seen.insert((g.tag, g.seq)) {
                cx.fail("delivered-twice", format!("message {}/{} at {}", g.tag, g.seq, j));
                break;
            }
            if g.tag >= 100 && (g.tag - 100) % 3 != j as u64 {
                cx.fail("wrong-receiver", format!("message {}/{} at {}", g.tag, g.seq, j));
                break;
            }
            if g.tag != 9 && g.tag != 0xBAD && g.session.is_some() {
                cx.fail("udp-with-session", format!("message {}/{} came over UDP but has a session", g.tag, g.seq));
                break;
            }
            if never.contains(&(g.tag, g.seq)) {
                cx.fail("harness", format!("{}/{} should not fit", g.tag, g.seq));
                break;
            }
        }
        if j == 1 && tcp_sent > 0 && !cx.failed {
            let t = n.inbox.of(9);
            if t.len() as u64 != tcp_sent || session_order(&t).is_err() {
                cx.fail("tcp-disturbed", format!("{} of {} messages over TCP arrived: {:?}", t.len(), tcp_sent, session_order(&t)));
            }
        }
        if n.stat.log.lock().unwrap().iter().any(|s| matches!(s.s, NetworkStatus::CriticalNetworkFailure | NetworkStatus::ConnectionLost(..))) {
            cx.fail("network-failure", format!("{:?}", n.stat.dump()));
        }
        total += got.len() as u64;
    }
    rep.count("messages delivered", total);
    rep.count("messages from a plain socket", from_raw);
    rep.eval(sig, total > 0);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "script": cx.log, "chunks": cfgs.iter().map(|c| c.chunk).collect::<Vec<_>>(), "delivered": total}));
    }
    for n in nodes {
        n.close();
    }
    cx.panics(false);
}

pub fn n04(rep: &Arc<Report>) {
    rep.rule("one case: two systems and a plain socket exchange messages over UDP, few at a time, among malformed datagrams and messages too large; distinct by sizes and order");
    rep.assume("the loopback interface does not drop datagrams while fewer than 64 KiB are in flight");
    rep.hang_limit(Duration::from_secs(120));
    rep.run_cases(6, 1.0, u64::MAX, n04_case);
}
