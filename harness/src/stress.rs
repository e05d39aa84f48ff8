//! Many real threads against the real executors: monitors inside the handlers and at the end of
//! every round decide delivery, order, exclusion, progress, thread affinity and release.
use crate::util::*;
use futures::channel::oneshot;
use kompact::executors::{crossbeam_channel_pool, crossbeam_workstealing_pool};
use kompact::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, Weak};
use std::time::{Duration, Instant};

static NEXT_THREAD: AtomicU64 = AtomicU64::new(1);
static LIVE_THREADS: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());
struct ThreadMark(u64);
impl ThreadMark {
    fn new() -> ThreadMark {
        let t = NEXT_THREAD.fetch_add(1, SeqCst);
        LIVE_THREADS.lock().unwrap().insert(t);
        ThreadMark(t)
    }
}
impl Drop for ThreadMark {
    fn drop(&mut self) {
        LIVE_THREADS.lock().unwrap().remove(&self.0);
    }
}
/// A number that identifies the current thread and is never used again.
pub fn tid() -> u64 {
    thread_local!(static T: ThreadMark = ThreadMark::new());
    T.try_with(|t| t.0).unwrap_or(0)
}
/// Whether the thread that was given `t` has not ended.
pub fn thread_lives(t: u64) -> bool {
    LIVE_THREADS.lock().unwrap().contains(&t)
}

const EARLY: &str = "real-time-timer-up-to-2ms-early";
const KINDS: usize = 6;
const MSG: usize = 0;
const IND: usize = 1;
const REQ: usize = 2;
const TIMER: usize = 3;
const FUT: usize = 4;
const BLOCK: usize = 5;
const NAMES: [&str; KINDS] = ["message", "indication", "request", "timer", "spawned-future", "blocking-future"];

/// What a handler does after its checks.
#[derive(Clone, Debug)]
pub enum Do {
    Nothing,
    Spin(u32),
    Tell(usize, u8),
    Ind,
    Req,
    Local(u32),
    Block(u32),
    Once(u64),
    Periodic(u64, u32),
    CancelOwn,
    Sleep(u64),
    /// panic or report a fatal error
    Fail(bool),
}
type Script = Arc<Vec<Do>>;

struct Tok(Arc<AtomicI64>);
impl Tok {
    fn new(c: &Arc<AtomicI64>) -> Tok {
        c.fetch_add(1, SeqCst);
        Tok(c.clone())
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(&self.0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

#[derive(Clone)]
pub struct M {
    from: usize,
    seq: u64,
    sum: u64,
    body: Vec<u8>,
    depth: u8,
    script: Script,
    _tok: Tok,
}
impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "M({},{})", self.from, self.seq)
    }
}
#[derive(Debug)]
pub struct Wrap(M);
impl From<Wrap> for M {
    fn from(w: Wrap) -> M {
        w.0
    }
}

pub struct PX;
impl Port for PX {
    type Indication = M;
    type Request = M;
}

/// One component's books, shared between the component and the observers.
#[derive(Default)]
struct Book {
    expect: [AtomicU64; KINDS],
    done: [AtomicU64; KINDS],
    busy: AtomicBool,
    started: AtomicBool,
    starts: AtomicU64,
    stops: AtomicU64,
    kills: AtomicU64,
    dead: AtomicBool,
    blocked: AtomicBool,
    threads: Mutex<BTreeSet<u64>>,
    dropped: AtomicU64,
    dedicated: AtomicBool,
    failed: AtomicBool,
}

/// Everything the components of one case share.
pub struct Net {
    prop: &'static str,
    books: Mutex<Vec<Arc<Book>>>,
    bad: Mutex<Vec<(Vec<&'static str>, String, String)>>,
    pub expect: AtomicU64,
    pub done: AtomicU64,
    tokens: Arc<AtomicI64>,
    refs: Mutex<Arc<Vec<ActorRef<M>>>>,
    ext_seq: Mutex<BTreeMap<(usize, usize), u64>>,
    gates: Gates,
    counts: [AtomicU64; KINDS],
    overlaps: AtomicU64,
    handoffs: AtomicU64,
    shut: AtomicBool,
    lives: AtomicU32,
    peak: AtomicU32,
}

impl Net {
    fn bad(&self, tags: &[&'static str], sig: &str, d: String) {
        let mut b = self.bad.lock().unwrap();
        if b.iter().filter(|x| x.1 == sig).count() < 10 {
            b.push((tags.to_vec(), sig.to_string(), d));
        }
    }
    fn expect(&self, b: &Book, kind: usize) {
        b.expect[kind].fetch_add(1, SeqCst);
        self.expect.fetch_add(1, SeqCst);
    }
    fn done(&self, b: &Book, kind: usize) {
        b.done[kind].fetch_add(1, SeqCst);
        self.counts[kind].fetch_add(1, Relaxed);
        self.done.fetch_add(1, SeqCst);
    }
    fn msg(&self, from: usize, seq: u64, depth: u8, script: Script) -> M {
        let n = (mix(seq, from as u64) % 40) as usize;
        let mut r = Rng::new(mix(seq, from as u64 + 7));
        let body = r.bytes(n);
        M { from, seq, sum: hash_bytes(&body), body, depth, script, _tok: Tok::new(&self.tokens) }
    }
}

/// Threads that complete promises handed to them, after a short random delay.
pub struct Gates {
    q: Arc<(Mutex<VecDeque<(oneshot::Sender<u32>, u32)>>, Condvar)>,
    stop: Arc<AtomicBool>,
    hs: Mutex<Vec<std::thread::JoinHandle<()>>>,
}
impl Gates {
    fn new(n: usize) -> Gates {
        let q: Arc<(Mutex<VecDeque<(oneshot::Sender<u32>, u32)>>, Condvar)> = Arc::new((Mutex::new(VecDeque::new()), Condvar::new()));
        let stop = Arc::new(AtomicBool::new(false));
        let hs = (0..n)
            .map(|_| {
                let q = q.clone();
                let stop = stop.clone();
                std::thread::spawn(move || {
                    loop {
                        let mut g = q.0.lock().unwrap();
                        let x = loop {
                            if let Some(x) = g.pop_front() {
                                break x;
                            }
                            if stop.load(SeqCst) {
                                return;
                            }
                            g = q.1.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                        };
                        drop(g);
                        spin(x.1 % 400);
                        if x.1 % 61 == 0 {
                            std::thread::sleep(Duration::from_micros((x.1 % 700) as u64));
                        }
                        let _ = x.0.send(x.1);
                    }
                })
            })
            .collect();
        Gates { q, stop, hs: Mutex::new(hs) }
    }
    fn later(&self, v: u32) -> oneshot::Receiver<u32> {
        let (tx, rx) = oneshot::channel();
        if v % 7 == 0 {
            let _ = tx.send(v);
        } else {
            self.q.0.lock().unwrap().push_back((tx, v));
            self.q.1.notify_one();
        }
        rx
    }
    fn end(&self) {
        self.stop.store(true, SeqCst);
        self.q.1.notify_all();
        for h in self.hs.lock().unwrap().drain(..) {
            let _ = h.join();
        }
    }
}

fn spin(n: u32) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}

#[derive(ComponentDefinition)]
pub struct W {
    ctx: ComponentContext<Self>,
    pp: ProvidedPort<PX>,
    rp: RequiredPort<PX>,
    net: Arc<Net>,
    book: Arc<Book>,
    idx: usize,
    prov_peers: Vec<Arc<Book>>,
    req_peers: Vec<Arc<Book>>,
    seen: BTreeMap<(u8, usize), u64>,
    sent: BTreeMap<(u8, usize), u64>,
    own_timers: VecDeque<(ScheduledTimer, u64)>,
    cancelled: BTreeSet<u64>,
    next_timer: u64,
    /// a plain field: lost updates mean that two handlers ran at once
    plain: u64,
    handled: Arc<AtomicU64>,
}
impl Drop for W {
    fn drop(&mut self) {
        self.book.dropped.fetch_add(1, SeqCst);
        self.net.lives.fetch_sub(1, SeqCst);
    }
}

struct Busy<'a>(&'a Book);
impl Drop for Busy<'_> {
    fn drop(&mut self) {
        self.0.busy.store(false, SeqCst);
    }
}

impl W {
    fn new(net: &Arc<Net>, book: &Arc<Book>, idx: usize) -> W {
        let l = net.lives.fetch_add(1, SeqCst);
        net.peak.fetch_max(l + 1, SeqCst);
        W {
            ctx: ComponentContext::uninitialised(),
            pp: ProvidedPort::uninitialised(),
            rp: RequiredPort::uninitialised(),
            net: net.clone(),
            book: book.clone(),
            idx,
            prov_peers: vec![],
            req_peers: vec![],
            seen: BTreeMap::new(),
            sent: BTreeMap::new(),
            own_timers: VecDeque::new(),
            cancelled: BTreeSet::new(),
            next_timer: 0,
            plain: 0,
            handled: Arc::new(AtomicU64::new(0)),
        }
    }
    /// The common monitor at the start of every handler.
    fn enter(&mut self, kind: &str, hook: bool, fut: bool) {
        let (n, b) = (&self.net, &self.book);
        if b.busy.swap(true, SeqCst) {
            n.overlaps.fetch_add(1, Relaxed);
            n.bad(&["C03"], "two-handlers-at-once", format!("component {} runs its {} handler while another one is running", self.idx, kind));
        }
        let before = self.handled.fetch_add(1, SeqCst);
        if self.plain != before {
            n.bad(&["C03"], "state-not-visible", format!("component {}: {} handlers ran, its state says {}", self.idx, before, self.plain));
        }
        self.plain = before + 1;
        if !hook && !fut && !b.started.load(SeqCst) {
            n.bad(&["C05"], "handler-while-not-started", format!("component {} runs a {} handler while it is stopped", self.idx, kind));
        }
        if !hook && b.blocked.load(SeqCst) {
            n.bad(&["C07"], "handler-while-blocked", format!("component {} runs a {} handler while it is blocked", self.idx, kind));
        }
        if b.dead.load(SeqCst) {
            n.bad(&["C05"], "handler-after-kill", format!("component {} runs a {} handler after its kill hook", self.idx, kind));
        }
        if n.shut.load(SeqCst) {
            n.bad(&["C10"], "handler-after-shutdown", format!("component {} runs a {} handler after shutdown completed", self.idx, kind));
        }
        let mut t = b.threads.lock().unwrap();
        if t.insert(tid()) && t.len() > 1 {
            n.handoffs.fetch_add(1, Relaxed);
            if b.dedicated.load(SeqCst) {
                n.bad(&["C12"], "dedicated-component-on-two-threads", format!("dedicated component {} ran a {} handler on thread {} besides {:?}", self.idx, kind, tid(), t));
            }
        }
    }
    fn leave(&mut self) {
        self.book.busy.store(false, SeqCst);
    }
    fn order(&mut self, port: u8, m: &M, name: &str) {
        let next = self.seen.entry((port, m.from)).or_insert(0);
        let tags: &[&'static str] = if port == 0 { &["C01"] } else { &["C02"] };
        if m.seq != *next {
            self.net.bad(tags, &format!("{}-out-of-order", name), format!("component {} got {} {} of sender {} but {} is next", self.idx, name, m.seq, m.from, next));
        }
        *next = m.seq + 1;
        if hash_bytes(&m.body) != m.sum {
            self.net.bad(tags, &format!("{}-changed", name), format!("component {}: content of {} {} of {} changed", self.idx, name, m.seq, m.from));
        }
    }
    fn run(&mut self, m: &M) -> HandlerResult {
        let script = m.script.clone();
        for d in script.iter() {
            if m.depth == 0 && !matches!(d, Do::Spin(_) | Do::Nothing) {
                continue;
            }
            if let Some(r) = self.act(d, m.depth.saturating_sub(1), &script) {
                return r;
            }
        }
        Handled::OK
    }
    fn act(&mut self, d: &Do, depth: u8, script: &Script) -> Option<HandlerResult> {
        let net = self.net.clone();
        let book = self.book.clone();
        match d {
            Do::Nothing => (),
            Do::Spin(n) => spin(*n),
            Do::Fail(panic) => {
                book.dead.store(true, SeqCst);
                if *panic {
                    std::panic::panic_any(Intended(self.idx as u64));
                }
                return Some(Err(HandlerError::unrecoverable(Box::new(std::io::Error::other("on purpose")))));
            }
            Do::Sleep(us) => std::thread::sleep(Duration::from_micros(*us)),
            Do::Tell(to, via) => {
                let refs = net.refs.lock().unwrap().clone();
                let to = to % refs.len();
                let b = net.books.lock().unwrap()[to].clone();
                let seq = self.sent.entry((0, to)).or_insert(0);
                let m = net.msg(1000 + self.idx, *seq, depth, script.clone());
                *seq += 1;
                net.expect(&b, MSG);
                tell(&refs[to], m, *via);
            }
            Do::Ind => {
                for p in &self.prov_peers {
                    net.expect(p, IND);
                }
                let seq = self.sent.entry((1, 0)).or_insert(0);
                let m = net.msg(self.idx, *seq, depth, script.clone());
                *seq += 1;
                self.pp.trigger(m);
            }
            Do::Req => {
                for p in &self.req_peers {
                    net.expect(p, REQ);
                }
                let seq = self.sent.entry((2, 0)).or_insert(0);
                let m = net.msg(self.idx, *seq, depth, script.clone());
                *seq += 1;
                self.rp.trigger(m);
            }
            Do::Local(v) => {
                net.expect(&book, FUT);
                let rx = net.gates.later(*v);
                let v = *v;
                self.spawn_local(move |mut acc| async move {
                    let got = rx.await;
                    acc.enter("future", false, true);
                    if got != Ok(v) {
                        acc.net.bad(&["C07"], "future-wrong-value", format!("component {} awaited {} got {:?}", acc.idx, v, got));
                    }
                    acc.net.done(&acc.book, FUT);
                    acc.leave();
                    Handled::OK
                });
            }
            Do::Block(v) => {
                net.expect(&book, BLOCK);
                let rx = net.gates.later(*v);
                let v = *v;
                book.blocked.store(true, SeqCst);
                return Some(Handled::block_on(self, move |mut acc| async move {
                    let got = rx.await;
                    acc.book.blocked.store(false, SeqCst);
                    acc.enter("blocking future", false, true);
                    if got != Ok(v) {
                        acc.net.bad(&["C07"], "future-wrong-value", format!("component {} awaited {} got {:?}", acc.idx, v, got));
                    }
                    acc.net.done(&acc.book, BLOCK);
                    acc.leave();
                    Handled::OK
                }));
            }
            Do::Once(us) => {
                net.expect(&book, TIMER);
                let t0 = Instant::now();
                let d = Duration::from_micros(*us);
                let key = self.next_timer;
                self.next_timer += 1;
                let h = self.schedule_once(d, move |me, _| {
                    me.enter("timer", false, false);
                    me.timer_ran(key, t0, d);
                    me.own_timers.retain(|(_, k)| *k != key);
                    me.net.done(&me.book, TIMER);
                    me.leave();
                    Handled::OK
                });
                if us % 3 == 0 {
                    self.own_timers.push_back((h, key));
                }
            }
            Do::Periodic(us, n) => {
                for _ in 0..*n {
                    net.expect(&book, TIMER);
                }
                let t0 = Instant::now();
                let d = Duration::from_micros(*us).max(Duration::from_millis(1));
                let d = Duration::from_millis(d.as_millis() as u64);
                let key = self.next_timer;
                self.next_timer += 1;
                let left = AtomicU32::new(*n);
                let total = *n;
                self.schedule_periodic(d, d, move |me, h| {
                    me.enter("timer", false, false);
                    let l = left.fetch_sub(1, SeqCst);
                    me.timer_ran(key, t0, d * total.wrapping_sub(l).wrapping_add(1).min(1000));
                    me.net.done(&me.book, TIMER);
                    if l == 1 {
                        me.cancelled.insert(key);
                        me.cancel_timer(h);
                    }
                    me.leave();
                    Handled::OK
                });
            }
            Do::CancelOwn => {
                if let Some((h, key)) = self.own_timers.pop_front() {
                    self.cancel_timer(h);
                    self.cancelled.insert(key);
                    // counted as done: it must never run
                    self.net.done(&self.book, TIMER);
                }
            }
        }
        None
    }
    fn timer_ran(&mut self, key: u64, t0: Instant, d: Duration) {
        if self.cancelled.contains(&key) {
            self.net.bad(&["C08"], "timer-after-cancel", format!("component {}: timer {} runs after its component cancelled it", self.idx, key));
        }
        let e = t0.elapsed();
        if e + Duration::from_millis(2) < d {
            self.net.bad(&["C08"], "timer-early", format!("component {}: timer {} due after {:?} ran after {:?}", self.idx, key, d, e));
        } else if e < d {
            self.net.bad(&["C08"], EARLY, format!("component {}: timer {} due after {:?} ran after {:?}", self.idx, key, d, e));
        }
    }
}

impl Actor for W {
    type Message = M;
    fn receive_local(&mut self, m: M) -> HandlerResult {
        self.enter("message", false, false);
        self.order(0, &m, "message");
        let r = self.run(&m);
        self.net.clone().done(&self.book, MSG);
        self.leave();
        r
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
impl Provide<PX> for W {
    fn handle(&mut self, m: M) -> HandlerResult {
        self.enter("request", false, false);
        self.order(2, &m, "request");
        let r = self.run(&m);
        self.net.clone().done(&self.book, REQ);
        self.leave();
        r
    }
}
impl Require<PX> for W {
    fn handle(&mut self, m: M) -> HandlerResult {
        self.enter("indication", false, false);
        self.order(1, &m, "indication");
        let r = self.run(&m);
        self.net.clone().done(&self.book, IND);
        self.leave();
        r
    }
}
impl ComponentLifecycle for W {
    fn on_start(&mut self) -> HandlerResult {
        self.enter("start", true, false);
        self.book.started.store(true, SeqCst);
        self.book.starts.fetch_add(1, SeqCst);
        self.leave();
        Handled::OK
    }
    fn on_stop(&mut self) -> HandlerResult {
        self.enter("stop", true, false);
        self.book.started.store(false, SeqCst);
        self.book.stops.fetch_add(1, SeqCst);
        self.leave();
        Handled::OK
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.enter("kill", true, false);
        self.book.kills.fetch_add(1, SeqCst);
        self.book.dead.store(true, SeqCst);
        self.leave();
        Handled::OK
    }
}

fn tell(r: &ActorRef<M>, m: M, via: u8) {
    match via % 5 {
        1 => r.recipient::<Wrap>().tell(Wrap(m)),
        2 => r.recipient_with::<M>(|x| x).tell(m),
        3 => match r.hold() {
            Some(s) => s.tell(m),
            None => r.tell(m),
        },
        4 => r.enqueue(kompact::messaging::MsgEnvelope::Typed(m)),
        _ => r.tell(m),
    }
}

#[derive(ComponentDefinition)]
struct Probe {
    ctx: ComponentContext<Self>,
    n: Arc<AtomicU64>,
}
ignore_lifecycle!(Probe);
impl Actor for Probe {
    type Message = ();
    fn receive_local(&mut self, _: ()) -> HandlerResult {
        self.n.fetch_add(1, SeqCst);
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

pub struct Setup {
    pub threads: usize,
    pub throughput: usize,
    pub priority: f32,
    pub exec: usize,
}

pub fn build_system(s: &Setup) -> Option<KompactSystem> {
    let mut c = KompactConfig::default();
    c.logger(null_logger());
    #[allow(deprecated)]
    {
        c.threads(s.threads);
        c.throughput(s.throughput);
        c.msg_priority(s.priority);
    }
    match s.exec {
        0 => (),
        1 => {
            c.executor(crossbeam_workstealing_pool::small_pool);
        }
        2 => {
            c.executor(crossbeam_workstealing_pool::large_pool);
        }
        3 => {
            c.executor(crossbeam_channel_pool::ThreadPool::new);
        }
        4 => {
            c.executor(crossbeam_workstealing_pool::pool_with_auto_parker);
        }
        _ => {
            c.executor(crossbeam_workstealing_pool::dyn_pool);
        }
    }
    c.build().wait().ok()
}

fn script(r: &mut Rng, prof: &[u32], n: usize) -> Script {
    let k = r.weighted(&[3, 6, 4, 2]);
    Arc::new(
        (0..k)
            .map(|_| match r.weighted(prof) {
                0 => Do::Nothing,
                1 => Do::Spin(r.range(0, 600) as u32),
                2 => Do::Tell(r.below(n), r.below(5) as u8),
                3 => Do::Ind,
                4 => Do::Req,
                5 => Do::Local(r.next() as u32),
                6 => Do::Block(r.next() as u32),
                7 => Do::Once(*r.pick(&[0u64, 500, 1000, 1500, 2400, 5100])),
                8 => Do::Periodic(*r.pick(&[1000u64, 2000, 3000]), r.range(1, 4) as u32),
                9 => Do::CancelOwn,
                _ => Do::Sleep(r.range(1, 80) as u64),
            })
            .collect(),
    )
}

/// weights of: nothing spin tell ind req local block once periodic cancel sleep
fn profile(prop: &str) -> [u32; 11] {
    match prop {
        "C01" => [4, 6, 30, 1, 1, 1, 1, 0, 0, 0, 1],
        "C02" => [4, 6, 4, 25, 25, 1, 1, 0, 0, 0, 1],
        "C07" => [4, 6, 6, 2, 2, 25, 15, 0, 0, 0, 1],
        "C08" => [2, 4, 4, 1, 1, 1, 1, 25, 8, 12, 1],
        _ => [4, 8, 10, 8, 8, 6, 4, 2, 0, 1, 1],
    }
}

enum Wait {
    Done,
    Stalled,
    Executor,
}

/// Waits until everything announced has happened.
fn settle(net: &Arc<Net>, probe: &ActorRef<()>, pn: &Arc<AtomicU64>) -> Wait {
    let mut last = net.done.load(SeqCst);
    let mut since = Instant::now();
    let mut spins = 0u32;
    loop {
        let d = net.done.load(SeqCst);
        if d == net.expect.load(SeqCst) {
            return Wait::Done;
        }
        if d != last {
            last = d;
            since = Instant::now();
        }
        spins += 1;
        if spins > 200 {
            std::thread::sleep(Duration::from_micros(50));
        } else {
            std::hint::spin_loop();
        }
        if since.elapsed() > Duration::from_secs(6) {
            // does the pool work at all?
            let before = pn.load(SeqCst);
            probe.tell(());
            let t = Instant::now();
            while pn.load(SeqCst) == before {
                if t.elapsed() > Duration::from_secs(20) {
                    return Wait::Executor;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            std::thread::sleep(Duration::from_secs(4));
            if net.done.load(SeqCst) != d {
                // another component's execution got things moving again
                return Wait::Executor;
            }
            return Wait::Stalled;
        }
    }
}

pub fn case(prop: &'static str, rep: &Arc<Report>, c: u64, seed: u64) {
    let mut r = Rng::new(seed);
    let setup = Setup {
        threads: *r.pick(&[1usize, 2, 2, 3, 4, 6]),
        throughput: *r.pick(&[1usize, 2, 3, 8, 50]),
        priority: *r.pick(&[0.1f32, 0.5, 0.9]),
        exec: r.below(6),
    };
    let Some(sys) = build_system(&setup) else {
        rep.inconclusive("no system");
        return;
    };
    let net = Arc::new(Net {
        prop,
        books: Mutex::new(vec![]),
        bad: Mutex::new(vec![]),
        expect: AtomicU64::new(0),
        done: AtomicU64::new(0),
        tokens: Arc::new(AtomicI64::new(0)),
        refs: Mutex::new(Arc::new(vec![])),
        ext_seq: Mutex::new(BTreeMap::new()),
        gates: Gates::new(3),
        counts: Default::default(),
        overlaps: AtomicU64::new(0),
        handoffs: AtomicU64::new(0),
        shut: AtomicBool::new(false),
        lives: AtomicU32::new(0),
        peak: AtomicU32::new(0),
    });
    let pn = Arc::new(AtomicU64::new(0));
    let pn2 = pn.clone();
    let probe = sys.create(move || Probe { ctx: ComponentContext::uninitialised(), n: pn2 });
    sys.start(&probe);
    let n = r.range(2, 6);
    let mut comps: Vec<Arc<Component<W>>> = vec![];
    let ded_share = if prop == "C12" { 60 } else { 15 };
    for i in 0..n {
        let book = Arc::new(Book::default());
        net.books.lock().unwrap().push(book.clone());
        let net2 = net.clone();
        let b2 = book.clone();
        let f = move || W::new(&net2, &b2, i);
        let comp = if r.chance(ded_share, 100) {
            book.dedicated.store(true, SeqCst);
            sys.create_dedicated(f)
        } else {
            sys.create(f)
        };
        comps.push(comp);
    }
    *net.refs.lock().unwrap() = Arc::new(comps.iter().map(|c| c.actor_ref()).collect());
    // a random set of connections, each pair at most once per direction
    let mut conns = BTreeSet::new();
    for _ in 0..r.range(1, 2 * n) {
        let (a, b) = (r.below(n), r.below(n));
        if a != b && conns.insert((a, b)) {
            let mut tries = 0;
            // (a dedicated component's thread may be holding it for a moment)
            while biconnect_components::<PX, _, _>(&comps[a], &comps[b]).is_err() {
                tries += 1;
                if tries > 20_000 {
                    net.bad(&["C02"], "connect-fails", format!("connecting two idle components fails for 10 s"));
                    break;
                }
                std::thread::sleep(Duration::from_micros(500));
            }
            let ba = net.books.lock().unwrap()[a].clone();
            let bb = net.books.lock().unwrap()[b].clone();
            comps[a].on_definition(|d| d.prov_peers.push(bb));
            comps[b].on_definition(|d| d.req_peers.push(ba));
        }
    }
    let start_late = r.chance(1, 4);
    if !start_late {
        for k in &comps {
            sys.start(k);
        }
    }
    let rounds = if rep.thorough() { r.range(40, 160) } else { r.range(20, 80) };
    let senders = r.range(1, 4);
    let prof = profile(prop);
    let mut stalled = false;
    let mut sig = mix(seed, 0xfeed);
    let chaos_life = matches!(prop, "C05" | "C04" | "C01" | "C02" | "C03") && r.chance(1, 3);
    for round in 0..rounds {
        let target = if r.chance(1, 2) { Some(r.below(n)) } else { None };
        let burst = *r.pick(&[1usize, 1, 2, 3, 8, 40]);
        let barrier = Arc::new(AtomicUsize::new(0));
        let pool: Vec<Script> = (0..4).map(|_| script(&mut r, &prof, n)).collect();
        let mut hs = vec![];
        for s in 0..senders {
            let net = net.clone();
            let mut r = Rng::new(mix(seed, mix(round as u64, s as u64)));
            let barrier = barrier.clone();
            let pool = pool.clone();
            let refs = net.refs.lock().unwrap().clone();
            let books: Vec<Arc<Book>> = net.books.lock().unwrap().clone();
            let mut work = move || {
                barrier.fetch_add(1, SeqCst);
                let t = Instant::now();
                while barrier.load(SeqCst) < senders && t.elapsed() < Duration::from_millis(20) {
                    std::hint::spin_loop();
                }
                for _ in 0..burst {
                    let to = target.unwrap_or_else(|| r.below(refs.len()));
                    let seq = {
                        let mut g = net.ext_seq.lock().unwrap();
                        let e = g.entry((s, to)).or_insert(0);
                        let v = *e;
                        *e += 1;
                        v
                    };
                    let m = net.msg(s, seq, r.range(0, 3) as u8, r.pick(&pool).clone());
                    net.expect(&books[to], MSG);
                    tell(&refs[to], m, r.below(5) as u8);
                    spin(r.below(200) as u32);
                }
            };
            if s == 0 && senders == 1 {
                work();
            } else {
                hs.push(std::thread::spawn(work));
            }
        }
        if chaos_life && round > 0 {
            for _ in 0..r.range(1, 3) {
                let k = r.below(n);
                if !net.books.lock().unwrap()[k].dedicated.load(SeqCst) || true {
                    sys.stop(&comps[k]);
                    spin(r.below(3000) as u32);
                    sys.start(&comps[k]);
                }
            }
        }
        for h in hs {
            let _ = h.join();
        }
        if start_late && round == 0 {
            for k in &comps {
                sys.start(k);
            }
        }
        match settle(&net, &probe.actor_ref(), &pn) {
            Wait::Done => (),
            Wait::Executor => {
                rep.inconclusive(&format!("case {}: the thread pool (kind {}) itself made no progress", c, setup.exec));
                stalled = true;
                break;
            }
            Wait::Stalled => {
                stalled = true;
                for (i, b) in net.books.lock().unwrap().iter().enumerate() {
                    for k in 0..KINDS {
                        let (e, d) = (b.expect[k].load(SeqCst), b.done[k].load(SeqCst));
                        if e != d {
                            let tags: &[&'static str] = match k {
                                MSG => &["C01", "C04", "C07", "C12"],
                                IND | REQ => &["C02", "C04", "C07", "C12"],
                                TIMER => &["C08", "C04"],
                                _ => &["C07", "C04"],
                            };
                            net.bad(tags, &format!("{}-never-handled", NAMES[k]), format!(
                                "component {} (dedicated {}): {} of {} {}s happened and nothing moves any more; started {} blocked {}; executor {} threads {} throughput {}",
                                i, b.dedicated.load(SeqCst), d, e, NAMES[k], b.started.load(SeqCst), b.blocked.load(SeqCst), setup.exec, setup.threads, setup.throughput));
                        }
                    }
                }
                break;
            }
        }
        sig = mix(sig, net.done.load(SeqCst));
        if net.bad.lock().unwrap().iter().any(|b| b.1 != EARLY) {
            break;
        }
    }
    // nothing was handled twice, either
    if !stalled {
        std::thread::sleep(Duration::from_micros(300));
        for (i, b) in net.books.lock().unwrap().iter().enumerate() {
            for k in 0..KINDS {
                let (e, d) = (b.expect[k].load(SeqCst), b.done[k].load(SeqCst));
                if d > e {
                    let tags: &[&'static str] = match k {
                        MSG => &["C01"],
                        IND | REQ => &["C02"],
                        TIMER => &["C08"],
                        _ => &["C07"],
                    };
                    net.bad(tags, &format!("{}-handled-twice", NAMES[k]), format!("component {}: {} announced, {} happened", i, e, d));
                }
            }
        }
        // kill the components while others keep sending to them, release them, then shut down
        let kill_race = r.chance(2, 3);
        let stop_flood = Arc::new(AtomicBool::new(false));
        let mut flood = vec![];
        if kill_race {
            for s in 0..r.range(1, 2) {
                let refs = net.refs.lock().unwrap().clone();
                let net = net.clone();
                let stop = stop_flood.clone();
                flood.push(std::thread::spawn(move || {
                    let mut r = Rng::new(s as u64);
                    let mut sent = 0u64;
                    let empty: Script = Arc::new(vec![]);
                    while !stop.load(SeqCst) && sent < 20_000 {
                        let to = r.below(refs.len());
                        let seq = {
                            let mut g = net.ext_seq.lock().unwrap();
                            let e = g.entry((50 + s, to)).or_insert(0);
                            let v = *e;
                            *e += 1;
                            v
                        };
                        tell(&refs[to], net.msg(50 + s, seq, 0, empty.clone()), r.below(5) as u8);
                        sent += 1;
                        spin(50);
                    }
                    sent
                }));
            }
        }
        let weak: Vec<Weak<Component<W>>> = comps.iter().map(Arc::downgrade).collect();
        let mut futs = vec![];
        let books = net.books.lock().unwrap().clone();
        let whole = r.chance(1, 4);
        let ded_threads: Vec<u64> = books.iter().filter(|b| b.dedicated.load(SeqCst)).flat_map(|b| b.threads.lock().unwrap().clone()).collect();
        let pool_threads: BTreeSet<u64> = books.iter().filter(|b| !b.dedicated.load(SeqCst)).flat_map(|b| b.threads.lock().unwrap().clone()).collect();
        let mut uniq = BTreeSet::new();
        for t in &ded_threads {
            if pool_threads.contains(t) {
                net.bad(&["C12"], "pool-component-on-dedicated-thread", format!("thread {} ran both", t));
            }
            if !uniq.insert(*t) {
                net.bad(&["C12"], "two-components-on-one-dedicated-thread", format!("thread {}", t));
            }
        }
        if !whole {
            let failing = r.chance(1, 4);
            for (i, k) in comps.drain(..).enumerate() {
                spin(r.below(2000) as u32);
                if failing && r.chance(1, 2) {
                    // it fails instead
                    books[i].failed.store(true, SeqCst);
                    k.actor_ref().tell(net.msg(90, 0, 1, Arc::new(vec![Do::Fail(r.chance(1, 2))])));
                    rep.count("components_failed", 1);
                } else {
                    futs.push(sys.kill_notify(k));
                }
            }
            for f in futs {
                if f.wait_timeout(Duration::from_secs(20)).is_err() {
                    net.bad(&["C05", "C04"], "kill-not-completed", "kill_notify was not answered within 20 s".into());
                    stalled = true;
                }
            }
        }
        if !whole {
            stop_flood.store(true, SeqCst);
            for f in flood.drain(..) {
                rep.count("messages_sent_during_kill", f.join().unwrap_or(0));
            }
        }
        if !whole && !stalled {
            // released: with no handles left, state and queued messages are gone
            let t = Instant::now();
            while (net.lives.load(SeqCst) != 0 || net.tokens.load(SeqCst) != 0) && t.elapsed() < Duration::from_secs(10) {
                std::thread::sleep(Duration::from_micros(200));
            }
            let held = weak.iter().filter(|w| w.strong_count() > 0).count();
            if net.lives.load(SeqCst) != 0 {
                net.bad(&["C13"], "component-not-released", format!("{} components alive 10 s after they were killed and released ({} strong handles)", net.lives.load(SeqCst), held));
            } else if net.tokens.load(SeqCst) != 0 {
                net.bad(&["C13"], "message-not-released", format!("{} messages alive after all components are gone", net.tokens.load(SeqCst)));
            }
            // a dedicated thread ends with its component
            let t = Instant::now();
            let alive = |x: &u64| thread_lives(*x);
            while ded_threads.iter().any(alive) && t.elapsed() < Duration::from_secs(10) {
                std::thread::sleep(Duration::from_millis(1));
            }
            if ded_threads.iter().any(alive) {
                net.bad(&["C12"], "dedicated-thread-not-ended", format!("{} of {} dedicated threads are alive 10 s after the kill", ded_threads.iter().filter(|x| alive(x)).count(), ded_threads.len()));
            }
        }
        for (i, b) in books.iter().enumerate() {
            let (k, dr) = (b.kills.load(SeqCst), b.dropped.load(SeqCst));
            if !whole && !stalled && k != (!b.failed.load(SeqCst)) as u64 {
                net.bad(&["C05"], "kill-hook-count", format!("component {}: kill hook ran {} times", i, k));
            }
            if dr > 1 {
                net.bad(&["C13"], "state-dropped-twice", format!("component {}: dropped {} times", i, dr));
            }
        }
        if !stalled {
            drop(probe);
            let res = {
                let (tx, rx) = std::sync::mpsc::channel();
                let s2 = sys.clone();
                std::thread::spawn(move || {
                    let _ = tx.send(s2.shutdown().wait().is_ok());
                });
                rx.recv_timeout(Duration::from_secs(40))
            };
            match res {
                Ok(true) => (),
                Ok(false) => net.bad(&["C10"], "shutdown-failed", "shutdown reported an error".into()),
                Err(_) => net.bad(&["C10"], "shutdown-hangs", "shutdown did not complete within 40 s".into()),
            }
            net.shut.store(true, SeqCst);
            if whole {
                spin(20_000);
                stop_flood.store(true, SeqCst);
                for f in flood.drain(..) {
                    rep.count("messages_sent_during_shutdown", f.join().unwrap_or(0));
                }
                comps.clear();
                let t = Instant::now();
                while (net.lives.load(SeqCst) != 0 || net.tokens.load(SeqCst) != 0) && t.elapsed() < Duration::from_secs(10) {
                    std::thread::sleep(Duration::from_micros(200));
                }
                if res == Ok(true) && (net.lives.load(SeqCst) != 0 || net.tokens.load(SeqCst) != 0) {
                    net.bad(&["C13"], "not-released-after-shutdown", format!("{} components and {} messages alive 10 s after shutdown", net.lives.load(SeqCst), net.tokens.load(SeqCst)));
                }
                for (i, b) in books.iter().enumerate() {
                    let k = b.kills.load(SeqCst);
                    if res == Ok(true) && k != 1 {
                        net.bad(&["C10"], "kill-hook-count-at-shutdown", format!("component {}: kill hook ran {} times at shutdown", i, k));
                    }
                }
            }
        }
    }
    net.gates.end();
    rep.eval(sig, net.done.load(SeqCst) > 20);
    for k in 0..KINDS {
        rep.count(&format!("{}s_observed", NAMES[k]), net.counts[k].load(SeqCst));
    }
    rep.count("stress_rounds", rounds as u64);
    rep.count("stress_systems", 1);
    rep.count("thread_handoffs", net.handoffs.load(SeqCst));
    if rep.wants_sample() && net.done.load(SeqCst) > 100 {
        rep.sample(json!({"case": c, "kind": "stress", "executor": setup.exec, "threads": setup.threads, "throughput": setup.throughput,
            "components": n, "connections": conns.len(), "handled": net.done.load(SeqCst)}));
    }
    for (tags, sig, d) in net.bad.lock().unwrap().iter() {
        rep.count(&format!("raw_{}", sig), 1);
        if tags.contains(&prop) {
            rep.violation(sig, c, d.clone(), json!({"executor": setup.exec, "threads": setup.threads, "throughput": setup.throughput, "seed": seed}));
        }
    }
    for p in take_panics().iter().take(3) {
        let d = format!("unexpected panic on thread {}: {}", p.thread, format!("{} at {}", p.message, p.location));
        if prop == "C04" || prop == "C06" || prop == "C01" {
            rep.violation(&format!("panic {}", p.location.rsplit_once('/').map(|x| x.1).unwrap_or("").split(':').next().unwrap_or("")), c, d, json!({}));
        } else {
            rep.count("raw_panics", 1);
        }
    }
    let _ = net.prop;
    if stalled {
        // a stuck system cannot be shut down; the run ends here
        rep.stop.store(true, SeqCst);
        std::mem::forget(sys);
    }
}

pub fn run(prop: &'static str, rep: &Arc<Report>, until: f64) {
    rep.run_cases(3, until, u64::MAX, move |rep, c, seed| case(prop, rep, c, seed));
}

pub fn c12(rep: &Arc<Report>) {
    rep.rule("a case is one system with real threads and a mix of pool and dedicated components; it is non-trivial if more than 20 messages, events, timers or futures were handled");
    run("C12", rep, 1.0);
}
