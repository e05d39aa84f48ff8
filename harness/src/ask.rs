//! C09: asks, promises and futures. Every request carries a unique id; a book records what happened to
//! each request (handled, answered with what and whether the promise accepted it, dropped) and what its
//! asker got, and the two sides are compared whenever the system is quiet.
use crate::{det::*, stress::{Setup, build_system}, util::*};
use kompact::prelude::*;
use serde_json::json;
use std::{
    collections::HashMap,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
    },
    task::{Context, Poll},
    time::{Duration, Instant},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Way {
    Reply,
    Complete,
    Take,
    CompleteWith,
    CompleteWithLocal,
    Drop,
    DropTaken,
    Store,
    Shelf,
    Forward(usize),
    Nest(usize, bool),
    NestOff(usize),
    Panic,
    PanicTaken,
    Fail,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Got {
    Val(u64, u64),
    Dropped,
    Abandoned,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mode {
    External,
    Block,
    Local,
    Off,
}

#[derive(Debug)]
struct Entry {
    mode: Mode,
    asker: usize,
    target: usize,
    way: Way,
    handled: u32,
    /// value given and whether the promise took it
    answers: Vec<(u64, bool)>,
    /// neither request nor promise exist any more
    gone: bool,
    got: Vec<Got>,
    /// the asker threw its future away (set before doing so)
    future_dropped: bool,
}

#[derive(Default)]
struct Flag {
    dead: AtomicBool,
    blocked: AtomicBool,
}

struct World {
    book: Mutex<HashMap<u64, Entry>>,
    next: AtomicU64,
    refs: Mutex<Vec<ActorRef<Q>>>,
    flags: Vec<Flag>,
    shelf: Mutex<Vec<Held>>,
    bad: Mutex<Vec<(String, String)>>,
    progress: AtomicU64,
    late: AtomicBool,
}

impl World {
    fn bad(&self, sig: &str, d: String) {
        let mut b = self.bad.lock().unwrap();
        if b.len() < 20 {
            b.push((sig.to_string(), d));
        }
    }
    fn fresh(self: &Arc<Self>, mode: Mode, asker: usize, target: usize, way: Way) -> Req {
        let id = self.next.fetch_add(1, SeqCst);
        self.book.lock().unwrap().insert(
            id,
            Entry { mode, asker, target, way, handled: 0, answers: vec![], gone: false, got: vec![], future_dropped: false },
        );
        Req { id, salt: mix(id, 77), way, hops: 0, tok: Tok { id, world: self.clone(), off: false } }
    }
    fn got<E>(&self, id: u64, r: Result<Resp, E>) {
        let g = match r {
            Ok(v) => Got::Val(v.id, v.val),
            Err(_) => Got::Dropped,
        };
        self.outcome(id, g);
    }
    fn outcome(&self, id: u64, g: Got) {
        self.progress.fetch_add(1, SeqCst);
        let mut b = self.book.lock().unwrap();
        let e = b.get_mut(&id).unwrap();
        e.got.push(g);
        match g {
            Got::Val(i, v) => {
                // fulfilment is entered in the book before or after; it only has to be of this id
                if i != id || v != mix(id, 1234) {
                    let d = format!("ask {} ({:?}) completed with the answer to {} (value {:x})", id, e, i, v);
                    drop(b);
                    self.bad("wrong-answer", d);
                }
            }
            Got::Dropped | Got::Abandoned => (),
        }
    }
    fn answered(&self, id: u64, r: Result<(), PromiseErr>) {
        self.progress.fetch_add(1, SeqCst);
        let mut b = self.book.lock().unwrap();
        let e = b.get_mut(&id).unwrap();
        if matches!(r, Err(PromiseErr::AlreadyFulfilled)) {
            let d = format!("ask {}: the promise claims to be fulfilled already, {:?}", id, e);
            drop(b);
            return self.bad("already-fulfilled", d);
        }
        if r.is_err() && !e.future_dropped {
            let d = format!("ask {}: the promise reports a dropped future, but its asker still holds it: {:?}", id, e);
            drop(b);
            return self.bad("answer-refused", d);
        }
        e.answers.push((mix(id, 1234), r.is_ok()));
    }
    fn future_dropped(&self, id: u64) {
        self.book.lock().unwrap().get_mut(&id).unwrap().future_dropped = true;
    }
}

struct Tok {
    id: u64,
    world: Arc<World>,
    off: bool,
}
impl Drop for Tok {
    fn drop(&mut self) {
        if !self.off {
            self.world.progress.fetch_add(1, SeqCst);
            let mut b = self.world.book.lock().unwrap();
            let e = b.get_mut(&self.id).unwrap();
            if e.gone {
                let d = format!("request {} was dropped twice: {:?}", self.id, e);
                drop(b);
                self.world.bad("request-dropped-twice", d);
            } else {
                e.gone = true;
            }
        }
    }
}

struct Req {
    id: u64,
    salt: u64,
    way: Way,
    hops: u32,
    tok: Tok,
}
impl std::fmt::Debug for Req {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Req({})", self.id)
    }
}
#[derive(Debug)]
struct Resp {
    id: u64,
    val: u64,
}
fn resp(id: u64) -> Resp {
    Resp { id, val: mix(id, 1234) }
}

/// a promise kept without its request
struct Held {
    p: Option<KPromise<Resp>>,
    tok: Option<Tok>,
    id: u64,
}
impl Held {
    fn new(a: Ask<Req, Resp>) -> Held {
        let (p, r) = a.take();
        let id = r.id;
        Held { p: Some(p), tok: Some(r.tok), id }
    }
    fn fulfil(mut self) {
        let w = self.tok.as_ref().unwrap().world.clone();
        let r = self.p.take().unwrap().fulfil(resp(self.id));
        w.answered(self.id, r);
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        // first the promise, then the note that it is gone
        drop(self.p.take());
        drop(self.tok.take());
    }
}

#[derive(Debug)]
enum Q {
    Do(Ask<Req, Resp>),
    Ask(usize, Way, Mode),
    Flush(u64, bool),
}
impl From<Ask<Req, Resp>> for Q {
    fn from(a: Ask<Req, Resp>) -> Q {
        Q::Do(a)
    }
}

#[derive(ComponentDefinition)]
struct Node {
    ctx: ComponentContext<Self>,
    idx: usize,
    world: Arc<World>,
    stored: Vec<Ask<Req, Resp>>,
    held: Vec<Held>,
    last_from: HashMap<usize, u64>,
}
ignore_lifecycle!(Node);

struct Unblock(Arc<World>, usize);
impl Drop for Unblock {
    fn drop(&mut self) {
        self.0.flags[self.1].blocked.store(false, SeqCst);
    }
}
/// records that the asker's task was thrown away while waiting
struct Waiting(Arc<World>, u64, bool);
impl Drop for Waiting {
    fn drop(&mut self) {
        if !self.2 {
            self.0.outcome(self.1, Got::Abandoned);
        }
    }
}

fn send_ask(w: &Arc<World>, r: &ActorRef<Q>, req: Req, via: u64) -> KFuture<Resp> {
    match via % 4 {
        0 => r.ask_with(|p| Q::Do(Ask::new(p, req))),
        1 => {
            let of = Ask::of(req);
            r.ask_with(move |p| Q::Do(of(p)))
        }
        2 => match r.hold() {
            Some(s) => s.ask_with(|p| Q::Do(Ask::new(p, req))),
            None => r.ask_with(|p| Q::Do(Ask::new(p, req))),
        },
        _ => {
            let (p, f) = promise();
            let _ = w;
            r.recipient::<Ask<Req, Resp>>().tell(Ask::new(p, req));
            f
        }
    }
}

struct Fut(Option<KFuture<Resp>>, Arc<World>, u64);
impl Drop for Fut {
    fn drop(&mut self) {
        self.1.future_dropped(self.2);
    }
}

/// (guards exist from the start, also if the task is thrown away before it ever ran)
fn wait_for(w: Arc<World>, id: u64, f: KFuture<Resp>) -> impl Future<Output = bool> + Send {
    let g = Waiting(w.clone(), id, false);
    let h = Fut(Some(f), w.clone(), id);
    async move {
        let mut g = g;
        let mut h = h;
        let r = h.0.as_mut().unwrap().await;
        drop(h);
        g.2 = true;
        let ok = r.is_ok();
        w.got(id, r);
        ok
    }
}

impl Node {
    fn answer(&mut self, a: Ask<Req, Resp>) {
        let id = a.request().id;
        let r = a.reply(resp(id));
        self.world.answered(id, r);
    }
    fn on_ask(&mut self, mut a: Ask<Req, Resp>) -> HandlerResult {
        let w = self.world.clone();
        w.progress.fetch_add(1, SeqCst);
        let id = a.request().id;
        if a.request().salt != mix(id, 77) {
            w.bad("request-altered", format!("request {} arrived with altered content", id));
        }
        {
            let mut b = w.book.lock().unwrap();
            let e = b.get_mut(&id).unwrap();
            e.handled += 1;
            let hops = a.request().hops;
            if e.handled != hops + 1 || e.gone || (hops == 0 && e.target != self.idx) {
                let d = format!("ask {} handled by component {} (hop {}), but {:?}", id, self.idx, hops, e);
                drop(b);
                w.bad("handled-wrongly", d);
            }
        }
        let way = a.request().way;
        match way {
            Way::Reply => self.answer(a),
            Way::Complete => {
                let r = a.complete(|q| resp(q.id));
                w.answered(id, r);
            }
            Way::Take => Held::new(a).fulfil(),
            Way::CompleteWith => {
                w.flags[self.idx].blocked.store(true, SeqCst);
                let ub = Unblock(w.clone(), self.idx);
                return Handled::block_on(self, move |_s| async move {
                    let _ub = ub;
                    let r = a.complete_with(|q| async move { resp(q.id) }).await;
                    w.answered(id, r);
                    Handled::OK
                });
            }
            Way::CompleteWithLocal => {
                self.spawn_local(move |_s| async move {
                    let r = a
                        .complete_with(|q| async move {
                            let id = q.id;
                            let _keep = q;
                            futures::pending_once().await;
                            resp(id)
                        })
                        .await;
                    w.answered(id, r);
                    Handled::OK
                });
            }
            Way::Drop => drop(a),
            Way::DropTaken => drop(Held::new(a)),
            Way::Store => {
                if id % 2 == 0 {
                    self.stored.push(a)
                } else {
                    self.held.push(Held::new(a))
                }
            }
            Way::Shelf => w.shelf.lock().unwrap().push(Held::new(a)),
            Way::Forward(t) => {
                a.request_mut().hops += 1;
                a.request_mut().way = Way::Reply;
                let r = w.refs.lock().unwrap()[t].clone();
                r.tell(Q::Do(a));
            }
            Way::Nest(t, blocking) => {
                let req = w.fresh(if blocking { Mode::Block } else { Mode::Local }, self.idx, t, if id % 3 == 0 { Way::Drop } else { Way::Reply });
                let nid = req.id;
                let r = w.refs.lock().unwrap()[t].clone();
                let f = send_ask(&w, &r, req, id);
                let wf = wait_for(w.clone(), nid, f);
                if blocking {
                    w.flags[self.idx].blocked.store(true, SeqCst);
                    let ub = Unblock(w.clone(), self.idx);
                    return Handled::block_on(self, move |_s| async move {
                        let _ub = ub;
                        if wf.await {
                            let r = a.reply(resp(id));
                            w.answered(id, r);
                        }
                        Handled::OK
                    });
                }
                self.spawn_local(move |_s| async move {
                    if wf.await {
                        let r = a.reply(resp(id));
                        w.answered(id, r);
                    }
                    Handled::OK
                });
            }
            Way::NestOff(t) => {
                let req = w.fresh(Mode::Off, self.idx, t, Way::Reply);
                let nid = req.id;
                let r = w.refs.lock().unwrap()[t].clone();
                let f = send_ask(&w, &r, req, id);
                let h = Held::new(a);
                let wf = wait_for(w.clone(), nid, f);
                let _handle = self.spawn_off(async move {
                    if wf.await {
                        h.fulfil();
                    }
                });
            }
            Way::Panic => {
                w.flags[self.idx].dead.store(true, SeqCst);
                let _keep = a;
                std::panic::panic_any(Intended(id));
            }
            Way::PanicTaken => {
                w.flags[self.idx].dead.store(true, SeqCst);
                self.held.push(Held::new(a));
                std::panic::panic_any(Intended(id));
            }
            Way::Fail => {
                w.flags[self.idx].dead.store(true, SeqCst);
                let _keep = a;
                return Err(HandlerError::unrecoverable(Box::new(std::io::Error::other("on purpose"))));
            }
        }
        Handled::OK
    }
}

impl Actor for Node {
    type Message = Q;
    fn receive_local(&mut self, m: Q) -> HandlerResult {
        let w = self.world.clone();
        match m {
            Q::Do(a) => return self.on_ask(a),
            Q::Ask(t, way, mode) => {
                let req = w.fresh(mode, self.idx, t, way);
                let id = req.id;
                let r = w.refs.lock().unwrap()[t].clone();
                let f = send_ask(&w, &r, req, id);
                let wf = wait_for(w.clone(), id, f);
                match mode {
                    Mode::Block => {
                        w.flags[self.idx].blocked.store(true, SeqCst);
                        let ub = Unblock(w.clone(), self.idx);
                        return Handled::block_on(self, move |_s| async move {
                            let _ub = ub;
                            wf.await;
                            Handled::OK
                        });
                    }
                    _ => self.spawn_local(move |_s| async move {
                        wf.await;
                        Handled::OK
                    }),
                }
            }
            Q::Flush(salt, all) => {
                let mut r = Rng::new(salt);
                while !self.stored.is_empty() {
                    if !all && r.chance(1, 3) {
                        break;
                    }
                    let i = r.below(self.stored.len());
                    let a = self.stored.swap_remove(i);
                    if r.chance(4, 5) {
                        self.answer(a);
                    }
                }
                while !self.held.is_empty() {
                    if !all && r.chance(1, 3) {
                        break;
                    }
                    let i = r.below(self.held.len());
                    let a = self.held.swap_remove(i);
                    if r.chance(4, 5) {
                        a.fulfil();
                    }
                }
            }
        }
        let _ = &self.last_from;
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

mod futures {
    pub struct Once(bool);
    impl std::future::Future for Once {
        type Output = ();
        fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
            if self.0 {
                return std::task::Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    }
    pub fn pending_once() -> Once {
        Once(false)
    }
}

fn way(r: &mut Rng, me: usize, n: usize, deadly: bool) -> Way {
    let below = |r: &mut Rng| if me + 1 < n { Some(r.range(me + 1, n - 1)) } else { None };
    match r.weighted(&[10, 6, 6, 5, 5, 6, 4, 12, 8, 8, 10, 5, if deadly { 1 } else { 0 }]) {
        0 => Way::Reply,
        1 => Way::Complete,
        2 => Way::Take,
        3 => Way::CompleteWith,
        4 => Way::CompleteWithLocal,
        5 => Way::Drop,
        6 => Way::DropTaken,
        7 => Way::Store,
        8 => Way::Shelf,
        9 => below(r).map_or(Way::Reply, Way::Forward),
        10 => {
            let b = r.chance(1, 2);
            below(r).map_or(Way::Reply, |t| Way::Nest(t, b))
        }
        11 => below(r).map_or(Way::Reply, Way::NestOff),
        _ => *r.pick(&[Way::Panic, Way::PanicTaken, Way::Fail]),
    }
}

fn make(w: &Arc<World>, sys: &KompactSystem, idx: usize, dedicated: bool) -> Arc<Component<Node>> {
    let w2 = w.clone();
    let f = move || Node { ctx: ComponentContext::uninitialised(), idx, world: w2, stored: vec![], held: vec![], last_from: HashMap::new() };
    if dedicated { sys.create_dedicated(f) } else { sys.create(f) }
}

fn new_world(n: usize) -> Arc<World> {
    Arc::new(World {
        book: Mutex::new(HashMap::new()),
        next: AtomicU64::new(1),
        refs: Mutex::new(vec![]),
        flags: (0..n).map(|_| Flag::default()).collect(),
        shelf: Mutex::new(vec![]),
        bad: Mutex::new(vec![]),
        progress: AtomicU64::new(0),
        late: AtomicBool::new(false),
    })
}

fn tally(rep: &Arc<Report>, w: &Arc<World>, kind: &str) -> u64 {
    let b = w.book.lock().unwrap();
    let mut sig = 0u64;
    for e in b.values() {
        rep.count("asks", 1);
        rep.count("asks_handled", e.handled.min(1) as u64);
        rep.count("asks_answered", e.answers.iter().filter(|a| a.1).count() as u64);
        rep.count("answers_to_dropped_futures", e.answers.iter().filter(|a| !a.1).count() as u64);
        for g in &e.got {
            match g {
                Got::Val(..) => rep.count("futures_with_answer", 1),
                Got::Dropped => rep.count("futures_with_error", 1),
                Got::Abandoned => rep.count("futures_abandoned", 1),
            }
        }
        if e.handled == 0 && e.gone {
            rep.count("asks_dropped_in_queue", 1);
        }
        sig = mix(sig ^ e.handled as u64, e.answers.len() as u64 * 7 + e.got.len() as u64 * 3 + e.target as u64);
    }
    rep.count(kind, 1);
    sig
}

fn finish(rep: &Arc<Report>, c: u64, seed: u64, w: &Arc<World>, kind: &str, setup: serde_json::Value) {
    let sig = tally(rep, w, kind);
    let n = w.book.lock().unwrap().len();
    rep.eval(sig, n >= 5);
    if rep.wants_sample() && n > 20 {
        rep.sample(json!({"case": c, "kind": kind, "asks": n, "setup": setup}));
    }
    for (s, d) in w.bad.lock().unwrap().iter() {
        rep.violation(s, c, d.clone(), json!({"seed": seed, "kind": kind, "setup": setup}));
    }
    for p in take_local_panics().iter().take(3) {
        rep.violation("panic", c, format!("unexpected panic on {}: {} at {}", p.thread, p.message, p.location), json!({"seed": seed}));
    }
}

struct Noop;
impl ::futures::task::ArcWake for Noop {
    fn wake_by_ref(_: &Arc<Self>) {}
}

/// everything the book says must agree with what the askers got; the system is quiet
fn compare(w: &Arc<World>, ext: &mut HashMap<u64, KFuture<Resp>>, dead_gone: bool) {
    let wk = ::futures::task::waker(Arc::new(Noop));
    let mut cx = Context::from_waker(&wk);
    let mut ready = vec![];
    for (id, f) in ext.iter_mut() {
        if let Poll::Ready(r) = std::pin::Pin::new(f).poll(&mut cx) {
            ready.push((*id, r));
        }
    }
    for (id, r) in ready {
        w.got(id, r);
        ext.remove(&id);
    }
    for (s, d) in differences(w, dead_gone) {
        w.bad(s, d);
    }
}

fn differences(w: &Arc<World>, dead_gone: bool) -> Vec<(&'static str, String)> {
    let mut bads = vec![];
    for (id, e) in w.book.lock().unwrap().iter() {
        if e.answers.len() > 1 || e.got.len() > 1 {
            bads.push(("more-than-once", format!("ask {} was answered or completed more than once: {:?}", id, e)));
        }
        let ok = e.answers.first().is_some_and(|a| a.1);
        match e.got.first() {
            Some(Got::Val(..)) if !ok => bads.push(("answer-from-nowhere", format!("ask {} completed although nobody answered it: {:?}", id, e))),
            Some(Got::Dropped) if ok => bads.push(("answer-lost", format!("ask {} was answered, but its asker got an error: {:?}", id, e))),
            Some(Got::Dropped) if !e.gone => bads.push(("error-too-early", format!("ask {} failed although it may still be answered: {:?}", id, e))),
            None if !e.future_dropped && (ok || e.gone) => {
                let excused = e.mode != Mode::External
                    && e.mode != Mode::Off
                    && (w.flags[e.asker].dead.load(SeqCst) || (e.mode == Mode::Local && w.flags[e.asker].blocked.load(SeqCst)));
                if !excused {
                    bads.push(("ask-hangs", format!("ask {} was {} but its asker's future is still pending: {:?}", id, if ok { "answered" } else { "dropped without an answer" }, e)));
                }
            }
            None if dead_gone && !e.future_dropped && !e.gone => {
                bads.push(("ask-hangs", format!("every component was destroyed and released, but ask {} is still pending: {:?}", id, e)));
            }
            _ => (),
        }
    }
    bads
}

fn det_case(rep: &Arc<Report>, c: u64, seed: u64) {
    let mut r = Rng::new(seed);
    take_local_panics();
    let policy = *r.pick(&[Policy::Random, Policy::Random, Policy::Fifo, Policy::Lifo]);
    let th = *r.pick(&[1usize, 2, 3, 50]);
    let sys = DetSys::build(policy, &mut r, |cf| {
        #[allow(deprecated)]
        cf.throughput(th);
    });
    let n = r.range(1, 5);
    let w = new_world(n);
    let mut comps: Vec<Option<Arc<Component<Node>>>> = vec![];
    let mut started = vec![false; n];
    for i in 0..n {
        let x = make(&w, &sys.system, i, false);
        w.refs.lock().unwrap().push(x.actor_ref());
        if r.chance(5, 6) {
            sys.system.start(&x);
            started[i] = true;
        }
        comps.push(Some(x));
    }
    let mut ext: HashMap<u64, KFuture<Resp>> = HashMap::new();
    let ops = r.range(5, 60);
    let deadly = r.chance(1, 2);
    for _ in 0..ops {
        match r.weighted(&[30, 20, 8, 6, 25, 6, 2, 2, 2]) {
            0 => {
                let t = r.below(n);
                let req = w.fresh(Mode::External, 0, t, way(&mut r, t, n, deadly));
                let id = req.id;
                let rf = w.refs.lock().unwrap()[t].clone();
                ext.insert(id, send_ask(&w, &rf, req, r.next()));
                if r.chance(1, 8) {
                    w.future_dropped(id);
                    ext.remove(&id);
                }
            }
            1 => {
                let a = r.below(n);
                // blocking askers only ask later components, so that nobody waits in a circle
                let block = r.chance(1, 2) && a + 1 < n;
                let t = if block { r.range(a + 1, n - 1) } else { r.below(n) };
                let wy = way(&mut r, t, n, deadly);
                let rf = w.refs.lock().unwrap()[a].clone();
                rf.tell(Q::Ask(t, wy, if block { Mode::Block } else { Mode::Local }));
            }
            2 => {
                let t = r.below(n);
                let rf = w.refs.lock().unwrap()[t].clone();
                rf.tell(Q::Flush(r.next(), false));
            }
            3 => {
                let h = {
                    let mut s = w.shelf.lock().unwrap();
                    if s.is_empty() {
                        None
                    } else {
                        let k = r.below(s.len());
                        Some(s.swap_remove(k))
                    }
                };
                if let Some(h) = h {
                    if r.chance(3, 4) { h.fulfil() } else { drop(h) }
                }
            }
            4 => {
                for _ in 0..r.range(1, 8) {
                    sys.step(&mut r);
                }
            }
            5 => {
                for t in 0..n {
                    if let (Some(x), false) = (&comps[t], started[t]) {
                        sys.system.start(x);
                        started[t] = true;
                    }
                }
                if sys.settle(&mut r, 20_000) {
                    compare(&w, &mut ext, false);
                } else {
                    rep.inconclusive("busy");
                    return;
                }
            }
            6 => {
                // drop a pending future
                if let Some(id) = ext.keys().copied().min() {
                    w.future_dropped(id);
                    ext.remove(&id);
                }
            }
            7 => {
                let t = r.below(n);
                if let Some(x) = &comps[t] {
                    if !started[t] {
                        sys.system.start(x);
                        started[t] = true;
                    }
                }
            }
            _ => {
                let t = r.below(n);
                if deadly {
                    if let Some(x) = comps[t].take() {
                        w.flags[t].dead.store(true, SeqCst);
                        sys.system.kill(x);
                        if started.iter().all(|s| *s) && r.chance(1, 2) {
                            sys.settle(&mut r, 20_000);
                        }
                    }
                }
            }
        }
        if !w.bad.lock().unwrap().is_empty() {
            break;
        }
        // faulty components are released
        for i in 0..n {
            if w.flags[i].dead.load(SeqCst) && comps[i].is_some() && r.chance(1, 2) {
                comps[i] = None;
            }
        }
    }
    // release everything, the last component first: whatever blocks waits for a later one
    if w.bad.lock().unwrap().is_empty() {
        let h: Vec<Held> = std::mem::take(&mut *w.shelf.lock().unwrap());
        for x in h {
            if r.chance(1, 2) { x.fulfil() } else { drop(x) }
        }
        for t in 0..n {
            if let (Some(x), false) = (&comps[t], started[t]) {
                sys.system.start(x);
            }
        }
        for i in (0..n).rev() {
            if let Some(x) = comps[i].take() {
                if r.chance(1, 2) {
                    let rf = w.refs.lock().unwrap()[i].clone();
                    rf.tell(Q::Flush(r.next(), true));
                }
                sys.settle(&mut r, 20_000);
                let h: Vec<Held> = std::mem::take(&mut *w.shelf.lock().unwrap());
                for x in h {
                    x.fulfil();
                }
                if !sys.settle(&mut r, 20_000) {
                    rep.inconclusive("busy");
                    return;
                }
                compare(&w, &mut ext, false);
                w.flags[i].dead.store(true, SeqCst);
                sys.system.kill(x);
                sys.settle(&mut r, 20_000);
            }
            drop(std::mem::take(&mut *w.shelf.lock().unwrap()));
        }
        sys.settle(&mut r, 20_000);
        compare(&w, &mut ext, true);
        // asking a released component fails at once
        for i in 0..n {
            let rf = w.refs.lock().unwrap()[i].clone();
            let req = w.fresh(Mode::External, 0, i, Way::Reply);
            let id = req.id;
            ext.insert(id, send_ask(&w, &rf, req, r.next()));
        }
        compare(&w, &mut ext, true);
    }
    w.refs.lock().unwrap().clear();
    finish(rep, c, seed, &w, "deterministic_systems", json!({"policy": format!("{:?}", policy), "throughput": th, "components": n}));
    let mut r2 = Rng::new(seed ^ 5);
    let down = sys.system.shutdown();
    drive(Box::pin(down), &sys.sched, Policy::Fifo, &mut r2, Duration::from_secs(5));
}

fn real_case(rep: &Arc<Report>, c: u64, seed: u64) {
    let mut r = Rng::new(seed);
    take_local_panics();
    let setup = Setup { threads: *r.pick(&[1usize, 2, 3, 4]), throughput: *r.pick(&[1usize, 2, 50]), priority: 0.5, exec: r.below(6) };
    let Some(sys) = build_system(&setup) else { return rep.inconclusive("no system") };
    let n = r.range(2, 5);
    let w = new_world(n);
    let mut comps = vec![];
    for i in 0..n {
        let d = r.chance(1, 5);
        let x = make(&w, &sys, i, d);
        w.refs.lock().unwrap().push(x.actor_ref());
        sys.start(&x);
        comps.push(Some(x));
    }
    let deadly = r.chance(1, 3);
    let finished = Arc::new(AtomicU64::new(0));
    let threads = r.range(2, 5) as u64;
    let per = r.range(20, 150);
    let mut hs = vec![];
    for t in 0..threads {
        let w = w.clone();
        let finished = finished.clone();
        let mut r = Rng::new(mix(seed, t));
        hs.push(std::thread::spawn(move || {
            let mut pending: Vec<(u64, KFuture<Resp>)> = vec![];
            for _ in 0..per {
                let t = r.below(n);
                if r.chance(1, 4) {
                    let block = r.chance(1, 2) && t + 1 < n;
                    let to = if block { r.range(t + 1, n - 1) } else { r.below(n) };
                    let dl = deadly && r.chance(1, 8);
                    let wy = way(&mut r, to, n, dl);
                    let rf = w.refs.lock().unwrap()[t].clone();
                    rf.tell(Q::Ask(to, wy, if block { Mode::Block } else { Mode::Local }));
                }
                let dl = deadly && r.chance(1, 8);
                let wy = way(&mut r, t, n, dl);
                let req = w.fresh(Mode::External, 0, t, wy);
                let id = req.id;
                let rf = w.refs.lock().unwrap()[t].clone();
                let f = send_ask(&w, &rf, req, r.next());
                match r.below(4) {
                    0 => {
                        let d = Duration::from_micros(r.range(0, 1500) as u64);
                        let t0 = Instant::now();
                        match block_until(d, f) {
                            Ok(v) => w.got(id, v),
                            Err(f) => {
                                if t0.elapsed() + Duration::from_micros(50) < d {
                                    w.bad("timeout-too-early", format!("wait_timeout({:?}) gave up after {:?}", d, t0.elapsed()));
                                }
                                pending.push((id, f));
                            }
                        }
                    }
                    1 if matches!(wy, Way::Reply | Way::Complete | Way::Take | Way::CompleteWith) && !deadly => {
                        // wait() panics on a dropped promise, so only where there is an answer
                        w.got::<()>(id, Ok(f.wait()));
                    }
                    2 if r.chance(1, 4) => {
                        w.future_dropped(id);
                        drop(f);
                    }
                    _ => pending.push((id, f)),
                }
                if pending.len() > 20 {
                    let (id, f) = pending.swap_remove(r.below(20));
                    match block_until(Duration::from_millis(2), f) {
                        Ok(v) => w.got(id, v),
                        Err(f) => pending.push((id, f)),
                    }
                }
            }
            finished.fetch_add(1, SeqCst);
            // the rest: the main thread keeps answering whatever was put aside
            for (id, f) in pending {
                let mut f = Some(f);
                loop {
                    match block_until(Duration::from_millis(300), f.take().unwrap()) {
                        Ok(v) => break w.got(id, v),
                        Err(g) => {
                            if w.late.load(SeqCst) {
                                break;
                            }
                            f = Some(g)
                        }
                    }
                }
            }
        }));
    }
    let shut_early = r.chance(1, 4);
    let mut killed = false;
    let mut shut = false;
    let mut last = (0, Instant::now());
    let mut sys = Some(sys);
    let mut stuck = false;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_micros(300));
        if !shut {
            let refs: Vec<_> = w.refs.lock().unwrap().clone();
            for x in &refs {
                x.tell(Q::Flush(r.next(), true));
            }
        }
        let h: Vec<Held> = std::mem::take(&mut *w.shelf.lock().unwrap());
        for x in h {
            if r.chance(3, 4) { x.fulfil() } else { drop(x) }
        }
        // dead components are released, so that what is queued there fails
        for i in 0..n {
            if w.flags[i].dead.load(SeqCst) {
                comps[i] = None;
            }
        }
        if deadly && !killed && finished.load(SeqCst) * 2 >= threads {
            killed = true;
            let i = r.below(n);
            if let (Some(x), Some(s)) = (comps[i].take(), &sys) {
                w.flags[i].dead.store(true, SeqCst);
                s.kill(x);
            }
        }
        if shut_early && !shut && finished.load(SeqCst) == threads {
            shut = true;
            for f in &w.flags {
                f.dead.store(true, SeqCst);
            }
            comps.iter_mut().for_each(|x| *x = None);
            // a component blocked on an ask to a component that is gone already may delay this
            let s = sys.take().unwrap();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let _ = s.shutdown().wait();
                let _ = tx.send(());
            });
            let t0 = Instant::now();
            while rx.try_recv().is_err() && t0.elapsed() < Duration::from_secs(20) {
                let h: Vec<Held> = std::mem::take(&mut *w.shelf.lock().unwrap());
                drop(h);
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        let p = w.progress.load(SeqCst);
        if p != last.0 {
            last = (p, Instant::now());
        } else if last.1.elapsed() > Duration::from_secs(25) {
            stuck = true;
            w.late.store(true, SeqCst);
        }
    }
    let fl: Vec<_> = w.flags.iter().enumerate().map(|(i, f)| (f.dead.load(SeqCst), f.blocked.load(SeqCst), comps[i].is_some())).collect();
    for h in hs {
        if h.join().is_err() {
            w.bad("asker-panicked", "a thread waiting for an answer panicked".into());
        }
    }
    if shut || deadly {
        // with components gone, local askers go with them
        for f in &w.flags {
            f.dead.store(true, SeqCst);
        }
    } else if !stuck {
        // let component askers finish
        let t0 = Instant::now();
        loop {
            let open = w.book.lock().unwrap().values().filter(|e| e.got.is_empty() && !e.future_dropped).count();
            if open == 0 {
                break;
            }
            if t0.elapsed() > Duration::from_secs(20) {
                stuck = true;
                break;
            }
            let refs: Vec<_> = w.refs.lock().unwrap().clone();
            for x in &refs {
                x.tell(Q::Flush(r.next(), true));
            }
            drop(std::mem::take(&mut *w.shelf.lock().unwrap()));
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    // an asker may know the outcome a moment before the answering thread has noted it
    let t0 = Instant::now();
    loop {
        let d = differences(&w, false);
        if d.is_empty() {
            break;
        }
        if t0.elapsed() > Duration::from_secs(10) {
            for (s, d) in d {
                w.bad(s, d);
            }
            break;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
    if stuck && w.bad.lock().unwrap().is_empty() {
        let b = w.book.lock().unwrap();
        let open: Vec<_> = b.iter().filter(|(_, e)| e.got.is_empty() && !e.future_dropped).take(6).map(|(i, e)| format!("{} {:?}", i, e)).collect();
        let d = format!("nothing happened for 20 s although asks are open and their answerers run or are released: {:?}; dead, blocked, kept: {:?}", open, fl);
        drop(b);
        w.bad("ask-hangs", d);
    }
    w.refs.lock().unwrap().clear();
    comps.clear();
    if stuck {
        std::mem::forget(sys.take());
        rep.stop.store(true, SeqCst);
    }
    finish(rep, c, seed, &w, "threaded_systems", json!({"executor": setup.exec, "threads": setup.threads, "components": n, "askers": threads, "shutdown": shut, "deadly": deadly}));
    if let Some(s) = sys {
        let _ = s.shutdown().wait_timeout_or_leak();
    }
}

trait Leak {
    fn wait_timeout_or_leak(self) -> bool;
}
impl<F: Future + Send + 'static> Leak for F {
    fn wait_timeout_or_leak(self) -> bool {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let _ = kompact::prelude::block_on(self);
            let _ = tx.send(());
        });
        rx.recv_timeout(Duration::from_secs(20)).is_ok()
    }
}

pub fn c09(rep: &Arc<Report>) {
    rep.rule("a case is one system in which components and outside threads ask components that answer at once, later, through others, from other threads, never, or fail; it is non-trivial if at least five asks were made");
    if rep.only_case.is_none_or(|c| c < 1_000_000_000) {
        rep.run_cases(4, 0.5, u64::MAX, det_case);
    }
    rep.case_base(1_000_000_000);
    if rep.only_case.is_none_or(|c| c >= 1_000_000_000) {
        rep.run_cases(3, 1.0, u64::MAX, real_case);
    }
}
