//! D04: every way of sending and forwarding gives the same message.
use crate::net::Cx;
use crate::netbase::*;
use crate::util::*;

use kompact::prelude::*;
use kompact::serde_serialisers::Serde;

use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ---- values: everything about a value follows from its id

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum K {
    Blob,
    Stubborn,
    Number,
    Text,
    Rich,
    Pair,
    Unit,
}
const KINDS: [K; 7] = [K::Blob, K::Stubborn, K::Number, K::Text, K::Rich, K::Pair, K::Unit];

/// Never available as a local value.
#[derive(Clone, Debug, PartialEq)]
struct Stubborn(Blob);
const STUBBORN_ID: SerId = 0x5152;
impl Serialisable for Stubborn {
    fn ser_id(&self) -> SerId {
        STUBBORN_ID
    }
    fn size_hint(&self) -> Option<usize> {
        self.0.size_hint()
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        // in pieces which do not match the buffer's
        buf.put_u64(self.0.tag);
        buf.put_u64(self.0.seq);
        buf.put_u32(self.0.data.len() as u32);
        for c in self.0.data.chunks(1 + (self.0.tag % 97) as usize) {
            buf.put_slice(c);
        }
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Err(self)
    }
}
struct StubbornSer;
impl Deserialiser<Stubborn> for StubbornSer {
    const SER_ID: SerId = STUBBORN_ID;
    fn deserialise(buf: &mut dyn Buf) -> Result<Stubborn, SerError> {
        BlobSer::deserialise(buf).map(Stubborn)
    }
}
/// Writes some bytes, then gives up.
#[derive(Clone, Debug)]
struct Failing(usize);
const FAILING_ID: SerId = 0x5153;
impl Serialisable for Failing {
    fn ser_id(&self) -> SerId {
        FAILING_ID
    }
    fn size_hint(&self) -> Option<usize> {
        None
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_slice(&vec![0xAA; self.0]);
        Err(SerError::invalid_data("as intended"))
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Err(self)
    }
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
struct Rich {
    id: u64,
    words: Vec<String>,
    more: Option<Box<Rich>>,
}
impl SerialisationId for Rich {
    const SER_ID: SerId = 0x5154;
}
/// Written by a separate serialiser.
#[derive(Clone, Debug, PartialEq)]
struct Pair(u64, Vec<u8>);
#[derive(Clone, Debug, PartialEq)]
struct PairSer;
impl Serialiser<Pair> for PairSer {
    fn ser_id(&self) -> SerId {
        0x5155
    }
    fn size_hint(&self) -> Option<usize> {
        Some(3)
    }
    fn serialise(&self, v: &Pair, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_slice(&v.1);
        buf.put_u64(v.0);
        Ok(())
    }
}
impl Deserialiser<Pair> for PairSer {
    const SER_ID: SerId = 0x5155;
    fn deserialise(buf: &mut dyn Buf) -> Result<Pair, SerError> {
        if buf.remaining() < 8 {
            return Err(SerError::invalid_data("short pair"));
        }
        let mut d = vec![0; buf.remaining() - 8];
        buf.copy_to_slice(&mut d);
        Ok(Pair(buf.get_u64(), d))
    }
}

fn blob_of(id: u64, len: usize) -> Blob {
    Blob::new(id, mix(id, 5) % 1000, len)
}
fn text_of(id: u64, len: usize) -> String {
    let mut s = format!("{}:", id);
    let mut g = Rng::new(mix(id, 77));
    while s.len() < len {
        s.push(*g.pick(&['a', 'ß', '→', '𝄞', ' ', '\0']));
    }
    s
}
fn rich_of(id: u64, len: usize) -> Rich {
    let mut left = len;
    let mut words = vec![];
    let mut n = 0;
    while left > 0 && n < 40 {
        let l = left.min(1 + (mix(id, n) % 300) as usize);
        words.push(text_of(id ^ n, l));
        left -= l;
        n += 1;
    }
    Rich { id, words, more: if id % 3 == 0 && len > 30 { Some(Box::new(rich_of(id + 1, len / 4))) } else { None } }
}
fn pair_of(id: u64, len: usize) -> Pair {
    Pair(id, blob_data(id, 9, len))
}
fn kind_ser_id(k: K) -> SerId {
    match k {
        K::Blob => BLOB_ID,
        K::Stubborn => STUBBORN_ID,
        K::Number => <u64 as Deserialiser<u64>>::SER_ID,
        K::Text => <String as Deserialiser<String>>::SER_ID,
        K::Rich => <Rich as SerialisationId>::SER_ID,
        K::Pair => 0x5155,
        K::Unit => <() as Deserialiser<()>>::SER_ID,
    }
}

// ---- what arrives

#[derive(Clone, Debug)]
struct Arrival {
    end: usize,
    k: K,
    id: u64,
    len: usize,
    sender: ActorPath,
    receiver: ActorPath,
}
#[derive(Default)]
struct Book {
    got: Mutex<Vec<Arrival>>,
    bad: Mutex<Vec<String>>,
    cv: Condvar,
}
impl Book {
    fn bad(&self, s: String) {
        self.bad.lock().unwrap().push(s);
    }
    fn wait(&self, n: usize, quiet: Duration) -> bool {
        let mut g = self.got.lock().unwrap();
        let (mut seen, mut last) = (g.len(), Instant::now());
        loop {
            if g.len() >= n {
                return true;
            }
            if g.len() != seen {
                seen = g.len();
                last = Instant::now();
            }
            let left = quiet.saturating_sub(last.elapsed());
            if left.is_zero() {
                return false;
            }
            g = self.cv.wait_timeout(g, left).unwrap().0;
        }
    }
}
#[derive(ComponentDefinition)]
struct End {
    ctx: ComponentContext<Self>,
    no: usize,
    book: Arc<Book>,
    /// try another type first now and then
    rng: Rng,
}
ignore_lifecycle!(End);
fn wrong_first(m: NetMessage, rng: &mut Rng, book: &Book) -> Option<NetMessage> {
    if !rng.chance(1, 3) {
        return Some(m);
    }
    let id = *m.ser_id();
    let r = if id == BLOB_ID { m.try_deserialise::<Pair, PairSer>().err() } else { m.try_deserialise::<Blob, BlobSer>().err() };
    match r {
        Some(UnpackError::NoIdMatch(m)) => Some(m),
        other => {
            book.bad(format!("unpacking a message with id {} as another type: {:?}", id, other));
            None
        }
    }
}
impl Actor for End {
    type Message = ();
    fn receive_local(&mut self, _: ()) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let (sender, receiver, ser_id) = (m.sender.clone(), m.receiver.clone(), *m.ser_id());
        let Some(m) = wrong_first(m, &mut self.rng, &self.book) else { return Handled::OK };
        let Some(k) = KINDS.iter().copied().find(|k| kind_ser_id(*k) == ser_id) else {
            self.book.bad(format!("a message with unknown id {} from {} to {}", ser_id, sender, receiver));
            return Handled::OK;
        };
        let r: Result<(u64, usize, bool), String> = match k {
            K::Blob => m.try_deserialise::<Blob, BlobSer>().map(|b| (b.tag, b.data.len(), b == blob_of(b.tag, b.data.len()))).map_err(|e| format!("{:?}", e)),
            K::Stubborn => m.try_deserialise::<Stubborn, StubbornSer>().map(|b| (b.0.tag, b.0.data.len(), b.0 == blob_of(b.0.tag, b.0.data.len()))).map_err(|e| format!("{:?}", e)),
            K::Number => m.try_deserialise::<u64, u64>().map(|n| (n, 0, true)).map_err(|e| format!("{:?}", e)),
            K::Text => m
                .try_deserialise::<String, String>()
                .map(|s| {
                    let id = s.split(':').next().and_then(|i| i.parse().ok()).unwrap_or(u64::MAX);
                    // lengths are rounded up to whole characters
                    let ok = s == text_of(id, s.len());
                    (id, s.len(), ok)
                })
                .map_err(|e| format!("{:?}", e)),
            K::Rich => m.try_deserialise::<Rich, Serde>().map(|r| (r.id, r.words.iter().map(|w| w.len()).sum(), true)).map_err(|e| format!("{:?}", e)),
            K::Pair => m.try_deserialise::<Pair, PairSer>().map(|p| (p.0, p.1.len(), p == pair_of(p.0, p.1.len()))).map_err(|e| format!("{:?}", e)),
            K::Unit => m.try_deserialise::<(), ()>().map(|_| (u64::MAX, 0, true)).map_err(|e| format!("{:?}", e)),
        };
        match r {
            Ok((id, len, ok)) => {
                if !ok {
                    self.book.bad(format!("content of {:?} {} ({} bytes) altered, from {} to {}", k, id, len, sender, receiver));
                }
                self.book.got.lock().unwrap().push(Arrival { end: self.no, k, id, len, sender, receiver });
                self.book.cv.notify_all();
            }
            Err(e) => self.book.bad(format!("{:?} from {} to {} cannot be deserialised: {}", k, sender, receiver, short(&e))),
        }
        Handled::OK
    }
}
fn short(s: &str) -> String {
    s.chars().take(200).collect()
}

// ---- forwarding

#[derive(Clone, Debug)]
enum How {
    Original,
    With(ActorPath),
}
#[derive(Clone, Debug)]
struct Out {
    path: ActorPath,
    to: Place,
    how: How,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Hop(usize),
    End(usize),
}
#[derive(ComponentDefinition)]
struct Hop {
    ctx: ComponentContext<Self>,
    outs: Vec<Out>,
    /// forward in batches of this many
    hold: usize,
    held: Vec<NetMessage>,
    book: Arc<Book>,
    rng: Rng,
    /// serialises something else in between
    noise: bool,
}
ignore_lifecycle!(Hop);
impl Hop {
    fn pass(&mut self) {
        for m in std::mem::take(&mut self.held) {
            let Some(m) = wrong_first(m, &mut self.rng, &self.book) else { continue };
            let mut m = Some(m);
            let n = self.outs.len();
            for (i, o) in self.outs.clone().into_iter().enumerate() {
                let c = if i + 1 == n {
                    m.take().unwrap()
                } else {
                    match m.as_ref().unwrap().try_clone() {
                        Ok(c) => c,
                        Err(e) => {
                            self.book.bad(format!("a message cannot be copied: {:?}", e));
                            continue;
                        }
                    }
                };
                match o.how {
                    How::Original => o.path.forward_with_original_sender(c, self),
                    How::With(p) => o.path.forward_with_sender(c, self, p),
                }
            }
            if self.noise {
                let _ = self.ctx.preserialise(&Blob::new(1, 1, self.rng.clone().below(200)));
            }
        }
    }
}
impl Actor for Hop {
    type Message = ();
    fn receive_local(&mut self, _: ()) -> HandlerResult {
        self.pass();
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        self.held.push(m);
        if self.held.len() >= self.hold {
            self.pass();
        }
        Handled::OK
    }
}

// ---- sending

#[derive(Clone, Debug)]
enum Via {
    Tell,
    TellFrom(ActorPath),
    Using(ActorPath),
    Eager,
    EagerFrom(ActorPath),
    Pre,
    PreFrom(ActorPath),
    /// a serialiser that fails: 0 lazily, 1 eagerly, 2 preserialised
    Fail(u8),
}
#[derive(Clone, Debug)]
struct Op {
    via: Via,
    k: K,
    id: u64,
    len: usize,
    paths: Vec<ActorPath>,
}
#[derive(ComponentDefinition)]
struct Snd {
    ctx: ComponentContext<Self>,
    book: Arc<Book>,
    done: Arc<(Mutex<usize>, Condvar)>,
}
ignore_lifecycle!(Snd);
impl Snd {
    fn run<S: Serialisable + Clone + 'static>(&mut self, op: &Op, v: S) {
        let bad = |s: &Self, e: SerError| s.book.bad(format!("sending {:?} fails: {:?}", op, e));
        let pre = if matches!(op.via, Via::Pre | Via::PreFrom(_)) {
            match self.ctx.preserialise(&v) {
                Ok(c) => Some(c),
                Err(e) => return bad(self, e),
            }
        } else {
            None
        };
        for p in &op.paths {
            let r = match &op.via {
                Via::Tell => {
                    p.tell(v.clone(), self);
                    Ok(())
                }
                Via::TellFrom(f) => {
                    p.tell_with_sender(v.clone(), self, f.clone());
                    Ok(())
                }
                Via::Using(f) => {
                    p.tell(v.clone(), &f.using_dispatcher(self));
                    Ok(())
                }
                Via::Eager => p.tell_serialised(v.clone(), self),
                Via::EagerFrom(f) => p.tell_serialised_with_sender(v.clone(), self, f.clone()),
                Via::Pre => p.tell_preserialised(pre.clone().unwrap(), self),
                Via::PreFrom(f) => p.tell_preserialised_with_sender(pre.clone().unwrap(), self, f.clone()),
                Via::Fail(_) => unreachable!(),
            };
            if let Err(e) = r {
                bad(self, e);
            }
        }
    }
    fn run_boxed(&mut self, op: &Op, make: impl Fn() -> Box<dyn Serialisable>) {
        for p in &op.paths {
            match &op.via {
                Via::Tell => p.tell(make(), self),
                Via::TellFrom(f) => p.tell_with_sender(make(), self, f.clone()),
                Via::Using(f) => p.tell(make(), &f.using_dispatcher(self)),
                _ => unreachable!(),
            }
        }
    }
}
impl Actor for Snd {
    type Message = Vec<Op>;
    fn receive_local(&mut self, ops: Vec<Op>) -> HandlerResult {
        for op in &ops {
            if let Via::Fail(how) = op.via {
                let v = Failing(op.len);
                for p in &op.paths {
                    match how {
                        0 => p.tell(v.clone(), self),
                        1 => {
                            if p.tell_serialised(v.clone(), self).is_ok() {
                                self.book.bad(format!("a failing serialiser is not reported: {:?}", op));
                            }
                        }
                        _ => {
                            if self.ctx.preserialise(&v).is_ok() {
                                self.book.bad(format!("a failing serialiser is not reported: {:?}", op));
                            }
                        }
                    }
                }
                continue;
            }
            match op.k {
                K::Blob => self.run(op, blob_of(op.id, op.len)),
                K::Stubborn => self.run(op, Stubborn(blob_of(op.id, op.len))),
                K::Number => self.run(op, op.id),
                K::Text => self.run(op, text_of(op.id, op.len)),
                K::Rich => self.run_boxed(op, || (rich_of(op.id, op.len), Serde).into()),
                K::Pair => self.run_boxed(op, || (pair_of(op.id, op.len), PairSer).into()),
                K::Unit => self.run(op, ()),
            }
        }
        *self.done.0.lock().unwrap() += 1;
        self.done.1.notify_all();
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        self.book.bad(format!("a sender receives {:?}", m.ser_id()));
        Handled::OK
    }
}

// ---- cases

const T: Duration = Duration::from_secs(60);

enum Sys {
    Local(KompactSystem),
    Net(Node),
}
impl Sys {
    fn sys(&self) -> &KompactSystem {
        match self {
            Sys::Local(s) => s,
            Sys::Net(n) => &n.sys,
        }
    }
}
/// The ways in which one actor can be addressed from node `at`.
fn address(rng: &mut Rng, own: usize, at: usize, net: bool, unique: &ActorPath, named: &ActorPath) -> ActorPath {
    let mut p = if rng.chance(1, 2) { unique.clone() } else { named.clone() };
    if own == at && net && rng.chance(1, 4) {
        p.set_protocol(Transport::Local);
    }
    p
}
fn odd_path(rng: &mut Rng) -> ActorPath {
    let ips: [&str; 4] = ["127.0.0.1", "10.1.2.3", "[::1]", "[2001:db8::7]"];
    let s = format!("{}:{}", rng.pick(&ips), rng.range(1, 65535));
    let sys = SystemPath::with_socket(*rng.pick(&[Transport::Tcp, Transport::Udp, Transport::Local]), s.parse().unwrap());
    match rng.below(3) {
        0 => ActorPath::Unique(UniquePath::with_system(sys, uuid::Uuid::from_u128(((rng.next() as u128) << 64) | rng.next() as u128))),
        1 => NamedPath::with_system(sys, vec!["from".into(), text_of(rng.next(), 12).replace(['\0', '*', '?', '/', ' ', '#', '@', '!'], "_")]).into(),
        _ => NamedPath::with_system(sys, (0..rng.range(1, 6)).map(|i| format!("s{}{}", i, "x".repeat(rng.below(30)))).collect()).into(),
    }
}

fn d04_case(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut cx = Cx::new(rep, case, seed);
    let book = Arc::new(Book::default());
    let n_sys = match case % 4 {
        0 | 1 => 1,
        2 => 2,
        _ => rng.range(2, 3),
    };
    let local_only = n_sys == 1 && rng.chance(1, 2);
    let mut min_chunk = usize::MAX;
    let systems: Vec<Sys> = (0..n_sys)
        .map(|_| {
            let cfg = gen_cfg(rng);
            min_chunk = min_chunk.min(cfg.chunk);
            if local_only {
                let mut c = KompactConfig::default();
                c.logger(null_logger());
                c.threads(cfg.threads);
                c.load_config_str(format!("[buffer_config]\nchunk_size = {}\nencode_min_remaining = {}\nmax_chunk_count = {}\n", cfg.chunk, cfg.min_free, cfg.max_chunks));
                Sys::Local(c.build().wait().expect("system"))
            } else {
                Sys::Net(Node::new(&cfg))
            }
        })
        .collect();
    // connect them one after the other: connections made at the same time may cost messages
    for i in 0..n_sys {
        for j in i + 1..n_sys {
            if let (Sys::Net(a), Sys::Net(b)) = (&systems[i], &systems[j]) {
                a.send(&b.sink_path(), &a.sink_path(), 1, i as u64, 5);
                if !b.inbox.wait_for(1, i as u64, T) {
                    cx.fail("lost", format!("the first message from {} to {} does not arrive", i, j));
                    return;
                }
                b.send(&a.sink_path(), &b.sink_path(), 1, j as u64, 5);
                if !a.inbox.wait_for(1, j as u64, T) {
                    cx.fail("lost", format!("the first message from {} to {} does not arrive", j, i));
                    return;
                }
            }
        }
    }
    let n_ends = rng.range(1, 4);
    let n_hops = rng.below(6);
    let mut ends = vec![];
    for e in 0..n_ends {
        let own = rng.below(n_sys);
        let s = systems[own].sys();
        let (b2, r2) = (book.clone(), Rng::new(rng.next()));
        let c = s.create(move || End { ctx: ComponentContext::uninitialised(), no: e, book: b2, rng: r2 });
        let u = s.register(&c).wait_timeout(T).expect("register").expect("register");
        let n = s.register_by_alias(&c, format!("end/{}", e)).wait_timeout(T).expect("register").expect("register");
        s.start_notify(&c).wait_timeout(T).expect("start");
        ends.push((own, u, n, c));
    }
    // hops in reverse: each forwards to ones after it or to ends
    let mut hops: Vec<(usize, ActorPath, ActorPath, Arc<Component<Hop>>, Vec<Out>)> = vec![];
    for h in 0..n_hops {
        let own = rng.below(n_sys);
        let outs: Vec<Out> = (0..if rng.chance(1, 4) { rng.range(2, 3) } else { 1 })
            .map(|_| {
                let (to, o, u, n) = if h > 0 && rng.chance(2, 3) {
                    let i = if rng.chance(1, 2) { h - 1 } else { rng.below(h) };
                    (Place::Hop(i), hops[i].0, hops[i].1.clone(), hops[i].2.clone())
                } else {
                    let i = rng.below(n_ends);
                    (Place::End(i), ends[i].0, ends[i].1.clone(), ends[i].2.clone())
                };
                Out { path: address(rng, o, own, !local_only, &u, &n), to, how: if rng.chance(1, 3) { How::With(odd_path(rng)) } else { How::Original } }
            })
            .collect();
        let s = systems[own].sys();
        let hold = if rng.chance(1, 3) { rng.range(2, 12) } else { 1 };
        let (o2, b2, r2, noise) = (outs.clone(), book.clone(), Rng::new(rng.next()), rng.chance(1, 3));
        let c = s.create(move || Hop { ctx: ComponentContext::uninitialised(), outs: o2, hold, held: vec![], book: b2, rng: r2, noise });
        let u = s.register(&c).wait_timeout(T).expect("register").expect("register");
        let n = s.register_by_alias(&c, format!("hop/{}", h)).wait_timeout(T).expect("register").expect("register");
        s.start_notify(&c).wait_timeout(T).expect("start");
        cx.note(format!("hop {} on {} hold {} -> {:?}", h, own, hold, outs.iter().map(|o| (o.path.to_string(), o.to, matches!(o.how, How::With(_)))).collect::<Vec<_>>()));
        hops.push((own, u, n, c, outs));
    }
    // what a message to `place` (addressed as `path`) from `sender` leads to
    fn follow(place: Place, path: &ActorPath, sender: &ActorPath, hops: &[(usize, ActorPath, ActorPath, Arc<Component<Hop>>, Vec<Out>)], out: &mut Vec<(usize, ActorPath, ActorPath)>) {
        match place {
            Place::End(e) => out.push((e, path.clone(), sender.clone())),
            Place::Hop(h) => {
                for o in &hops[h].4 {
                    let s = match &o.how {
                        How::Original => sender.clone(),
                        How::With(p) => p.clone(),
                    };
                    follow(o.to, &o.path, &s, hops, out);
                }
            }
        }
    }
    let n_snd = rng.range(1, 3);
    let mut expected: BTreeMap<(usize, K, u64, String, String), usize> = BTreeMap::new();
    // per sender and final place: the order of direct messages
    let mut order: HashMap<(usize, usize, String, String), Vec<u64>> = HashMap::new();
    let mut by_id: HashMap<u64, (K, usize, String)> = HashMap::new();
    let mut snds = vec![];
    let mut total = 0usize;
    let mut sig = hash_bytes(b"d04");
    let mut id = 1000u64;
    let mut variants = [0u64; 8];
    for s_no in 0..n_snd {
        let own = rng.below(n_sys);
        let s = systems[own].sys();
        let done = Arc::new((Mutex::new(0), Condvar::new()));
        let (b2, d2) = (book.clone(), done.clone());
        let c = s.create(move || Snd { ctx: ComponentContext::uninitialised(), book: b2, done: d2 });
        s.start_notify(&c).wait_timeout(T).expect("start");
        let me = s.actor_path_for(&c);
        let mut batches = vec![];
        for _ in 0..rng.range(1, 3) {
            let mut ops = vec![];
            for _ in 0..rng.range(1, 20) {
                if total > 400 {
                    break;
                }
                id += 1;
                let k = *rng.pick(&KINDS);
                let cap = (min_chunk * 30).min(300_000);
                let len = match rng.below(8) {
                    0 => 0,
                    1 => cap * rng.range(10, 100) / 100,
                    2 => min_chunk.min(cap),
                    3 => min_chunk.min(cap).saturating_sub(rng.below(90)),
                    _ => rng.below(200),
                };
                let len = if k == K::Rich { len.min(3000) } else { len };
                let boxed = matches!(k, K::Rich | K::Pair);
                let from = odd_path(rng);
                let mut via = match rng.below(if boxed { 4 } else { 9 }) {
                    0 | 1 => Via::Tell,
                    2 => Via::TellFrom(from),
                    3 => Via::Using(from),
                    4 | 5 => Via::Eager,
                    6 => Via::EagerFrom(from),
                    7 => Via::Pre,
                    _ => Via::PreFrom(from),
                };
                let fan = if matches!(via, Via::Pre | Via::PreFrom(_)) { rng.range(1, 4) } else { 1 };
                let mut paths = vec![];
                let mut places = vec![];
                for _ in 0..fan {
                    let (place, o, u, n) = if n_hops > 0 && rng.chance(1, 2) {
                        let i = rng.below(n_hops);
                        (Place::Hop(i), hops[i].0, &hops[i].1, &hops[i].2)
                    } else {
                        let i = rng.below(n_ends);
                        (Place::End(i), ends[i].0, &ends[i].1, &ends[i].2)
                    };
                    paths.push(address(rng, o, own, !local_only, u, n));
                    places.push((place, o));
                }
                // serialisers that fail: what has no need of them would deliver the value
                if !boxed && rng.chance(1, 10) {
                    let how = rng.below(3) as u8;
                    if how == 1 && paths[0].protocol() != Transport::Local || how == 2 || (how == 0 && places[0].1 != own) {
                        via = Via::Fail(how);
                        paths.truncate(1);
                        places.clear();
                    }
                }
                let v_no = match via {
                    Via::Tell => 0,
                    Via::TellFrom(_) => 1,
                    Via::Using(_) => 2,
                    Via::Eager => 3,
                    Via::EagerFrom(_) => 4,
                    Via::Pre => 5,
                    Via::PreFrom(_) => 6,
                    Via::Fail(_) => 7,
                };
                variants[v_no] += 1;
                sig = mix(sig, mix(v_no as u64 + 10 * k as u64, len as u64));
                for (p, (place, _)) in paths.iter().zip(&places) {
                    let sender = match &via {
                        Via::Tell | Via::Eager | Via::Pre => {
                            let mut m = me.clone();
                            m.set_protocol(p.protocol());
                            m
                        }
                        Via::Using(f) => {
                            let mut m = f.clone();
                            m.set_protocol(p.protocol());
                            m
                        }
                        Via::TellFrom(f) | Via::EagerFrom(f) | Via::PreFrom(f) => f.clone(),
                        Via::Fail(_) => unreachable!(),
                    };
                    let mut out = vec![];
                    follow(*place, p, &sender, &hops, &mut out);
                    total += out.len();
                    let vid = if k == K::Unit { u64::MAX } else { id };
                    for (e, path, sender) in out {
                        *expected.entry((e, k, vid, path.to_string(), sender.to_string())).or_default() += 1;
                        sig = mix(sig, e as u64);
                    }
                    if let (Place::End(e), true) = (place, k != K::Unit && matches!(via, Via::Tell | Via::Eager | Via::Pre)) {
                        order.entry((s_no, *e, p.system().to_string(), me.to_string())).or_default().push(id);
                    }
                }
                by_id.insert(id, (k, len, format!("{:?} from sender {} on {} to {:?}", via, s_no, own, paths.iter().map(|p| p.to_string()).collect::<Vec<_>>())));
                ops.push(Op { via, k, id, len, paths });
            }
            batches.push(ops);
        }
        snds.push((own, c, done, batches, rng.chance(1, 4)));
    }
    cx.note(format!("{} systems{}, smallest chunk {}, {} ends, {} hops, {} deliveries", n_sys, if local_only { " (no network)" } else { "" }, min_chunk, n_ends, n_hops, total));
    for (_, c, _, batches, _) in &snds {
        for b in batches {
            c.actor_ref().tell(b.clone());
        }
    }
    // all handlers have run; then some senders go away with what they sent still under way
    for (own, c, done, batches, dies) in &snds {
        let mut d = done.0.lock().unwrap();
        let until = Instant::now() + T;
        while *d < batches.len() && Instant::now() < until {
            d = done.1.wait_timeout(d, Duration::from_millis(100)).unwrap().0;
        }
        if *d < batches.len() {
            cx.fail("sender-stuck", format!("a sender has handled {} of {} requests", *d, batches.len()));
        }
        drop(d);
        if *dies {
            systems[*own].sys().kill(c.clone());
            rep.count("senders killed with messages under way", 1);
        }
    }
    let dead: Vec<bool> = snds.iter().map(|s| s.4).collect();
    drop(dead);
    // hops which collect messages
    let mut all = false;
    for round in 0..60 {
        let quiet = if round < 30 { Duration::from_millis(30) } else { Duration::from_millis(200) };
        if book.wait(total, quiet) {
            all = true;
            break;
        }
        for h in &hops {
            h.3.actor_ref().tell(());
        }
    }
    if !all {
        // slow machine
        book.wait(total, Duration::from_secs(5));
        for h in &hops {
            h.3.actor_ref().tell(());
        }
        book.wait(total, Duration::from_secs(3));
    }
    std::thread::sleep(Duration::from_millis(if rng.chance(1, 8) { 30 } else { 2 }));
    let got = book.got.lock().unwrap().clone();
    let mut have: BTreeMap<(usize, K, u64, String, String), usize> = BTreeMap::new();
    for g in &got {
        *have.entry((g.end, g.k, g.id, g.receiver.to_string(), g.sender.to_string())).or_default() += 1;
        if let Some((k, len, how)) = by_id.get(&g.id) {
            let ok = match k {
                K::Blob | K::Stubborn | K::Pair => *len == g.len,
                K::Text => g.len == text_of(g.id, *len).len(),
                K::Rich => g.len == rich_of(g.id, *len).words.iter().map(|w| w.len()).sum::<usize>(),
                K::Number | K::Unit => true,
            };
            if !ok || *k != g.k {
                cx.fail("altered", format!("{:?} {} of {} bytes, {}, arrives as {:?} of {} bytes", k, g.id, len, how, g.k, g.len));
            }
        }
    }
    let about = |id: u64| by_id.get(&id).map(|b| format!("{:?} ({} bytes) sent by {}", b.0, b.1, short(&b.2))).unwrap_or_default();
    if let Some(b) = book.bad.lock().unwrap().first() {
        cx.fail("altered", b.clone());
    }
    for (key, n) in &have {
        let e = expected.get(key).copied().unwrap_or(0);
        if *n > e {
            let near: Vec<_> = expected.keys().filter(|k| k.2 == key.2 && k.1 == key.1).take(3).collect();
            let sig = if e > 0 { "repeated" } else if near.is_empty() { "invented" } else { "misdelivered" };
            cx.fail(sig, format!("{:?} arrives {} times, expected {}; expected of this message: {:?}; {}", key, n, e, near, about(key.2)));
            break;
        }
    }
    for (key, n) in &expected {
        let h = have.get(key).copied().unwrap_or(0);
        if h < *n {
            cx.fail("lost", format!("{:?} arrives {} times, expected {} ({} of {} messages arrived); {}", key, h, n, got.len(), total, about(key.2)));
            break;
        }
    }
    for ((_, e, sys, me), ids) in &order {
        // as they arrive at this end, addressed through this system path
        let seq: Vec<u64> = got
            .iter()
            .filter(|g| g.end == *e && g.receiver.system().to_string() == *sys && by_id.contains_key(&g.id) && ids.contains(&g.id) && {
                let mut s = g.sender.clone();
                s.set_protocol(me.parse::<ActorPath>().unwrap().protocol());
                s.to_string() == *me
            })
            .map(|g| g.id)
            .collect();
        let mut first: Vec<u64> = vec![];
        for i in &seq {
            // the same id may arrive several times through hops with the original sender: those are other routes
            if !first.contains(i) {
                first.push(*i);
            }
        }
        let only_direct = !got.iter().any(|g| ids.contains(&g.id) && g.end == *e && seq.iter().filter(|x| **x == g.id).count() > 1);
        if only_direct && first.len() == ids.len() && first != *ids {
            cx.fail("reordered", format!("messages to end {} sent in the order {:?} arrive as {:?}: {}", e, ids, first, ids.iter().zip(&first).find(|(a, b)| a != b).map(|(a, b)| format!("{} / {}", about(*a), about(*b))).unwrap_or_default()));
        }
        rep.count("direct message orders checked", 1);
    }
    for (i, n) in ["tell", "tell_with_sender", "using_dispatcher", "tell_serialised", "tell_serialised_with_sender", "tell_preserialised", "tell_preserialised_with_sender", "failing serialisers"].iter().enumerate() {
        rep.count(&format!("sent by {}", n), variants[i]);
    }
    rep.count("messages delivered", got.len() as u64);
    rep.count("systems", n_sys as u64);
    rep.eval(sig, total > 3);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "log": cx.log, "delivered": got.len(), "first": got.iter().take(3).map(|g| format!("{:?}", g)).map(|s| short(&s)).collect::<Vec<_>>()}));
    }
    drop(snds);
    drop(hops);
    drop(ends);
    for s in systems {
        match s {
            Sys::Local(s) => {
                let _ = s.shutdown().wait_timeout(T);
            }
            Sys::Net(n) => {
                if let Some(b) = n.inbox.bad.lock().unwrap().first() {
                    cx.fail("altered", b.clone());
                }
                n.close();
            }
        }
    }
    cx.panics(false);
}

pub fn d04(rep: &Arc<Report>) {
    rep.rule("one case: random values sent in all ways through a random graph of forwarding actors on one to three systems; distinct by values, ways and places");
    rep.assume("systems are connected one after the other before the first message; no connection is lost");
    rep.hang_limit(Duration::from_secs(150));
    rep.run_cases(6, 1.0, u64::MAX, d04_case);
}


