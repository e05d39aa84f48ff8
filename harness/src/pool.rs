//! Small systems on real threads for the interpreter: components, channels, asks, futures, timers,
//! registrations and ends of life, used from several threads at once. The interpreter is the oracle;
//! the counters only show that things happened.
use crate::util::*;
use kompact::{
    component::{CoreContainer, SchedulingDecision},
    default_components::install_manual_timer,
    prelude::*,
    runtime::{Scheduler, SchedulerShutdownError},
    timer::ManualTimer,
};
use std::{
    collections::VecDeque,
    sync::{
        Arc, Condvar, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering::*},
    },
    time::Duration,
};

#[derive(Default)]
struct Shared {
    queue: Mutex<VecDeque<Arc<dyn CoreContainer>>>,
    more: Condvar,
    inline: AtomicBool,
    down: AtomicBool,
    busy: AtomicU64,
    executions: AtomicU64,
    futures: Mutex<Vec<futures::future::BoxFuture<'static, ()>>>,
}

#[derive(Clone, Default)]
struct Pool(Arc<Shared>);

impl Pool {
    fn work(&self) {
        loop {
            let c = {
                let mut q = self.0.queue.lock().unwrap();
                loop {
                    if self.0.down.load(SeqCst) {
                        return;
                    }
                    if let Some(c) = q.pop_front() {
                        self.0.busy.fetch_add(1, SeqCst);
                        break c;
                    }
                    q = self.0.more.wait(q).unwrap();
                }
            };
            self.0.executions.fetch_add(1, Relaxed);
            match c.execute() {
                SchedulingDecision::Schedule | SchedulingDecision::Resume => self.schedule(c),
                _ => (),
            }
            self.0.busy.fetch_sub(1, SeqCst);
        }
    }
    fn idle(&self) -> bool {
        let q = self.0.queue.lock().unwrap();
        q.is_empty() && self.0.busy.load(SeqCst) == 0
    }
}

impl Scheduler for Pool {
    fn schedule(&self, c: Arc<dyn CoreContainer>) {
        if self.0.inline.load(SeqCst) {
            while let SchedulingDecision::Schedule | SchedulingDecision::Resume = c.execute() {}
            return;
        }
        self.0.queue.lock().unwrap().push_back(c);
        self.0.more.notify_one();
    }
    fn shutdown_async(&self) {
        self.0.down.store(true, SeqCst);
        let _q = self.0.queue.lock().unwrap();
        self.0.more.notify_all();
    }
    fn shutdown(&self) -> Result<(), SchedulerShutdownError> {
        self.shutdown_async();
        Ok(())
    }
    fn shutdown_notify(&self) -> futures::future::BoxFuture<'static, Result<(), SchedulerShutdownError>> {
        self.shutdown_async();
        Box::pin(async { Ok(()) })
    }
    fn box_clone(&self) -> Box<dyn Scheduler> {
        Box::new(self.clone())
    }
    fn poison(&self) {
        self.shutdown_async();
    }
    fn spawn(&self, f: futures::future::BoxFuture<'static, ()>) {
        std::thread::spawn(move || futures::executor::block_on(f));
    }
}

struct PingPort;
impl Port for PingPort {
    type Indication = Arc<String>;
    type Request = Box<u64>;
}

#[derive(Debug)]
enum M {
    Work(Box<u64>),
    Fan(u32),
    Trigger,
    Ask(Ask<Box<u64>, Box<u64>>),
    AskOther,
    Block,
    Local,
    Once(u64),
    Every(u64),
    Cancel,
    Die,
    Fail,
    Panic,
    Register(&'static str),
}

#[derive(Default)]
struct Seen {
    messages: AtomicU64,
    indications: AtomicU64,
    requests: AtomicU64,
    timers: AtomicU64,
    answers: AtomicU64,
    blocked: AtomicU64,
    locals: AtomicU64,
    network: AtomicU64,
    ended: AtomicU64,
}

#[derive(ComponentDefinition)]
struct Cell {
    ctx: ComponentContext<Self>,
    up: ProvidedPort<PingPort>,
    down: RequiredPort<PingPort>,
    peers: Vec<ActorRef<M>>,
    seen: Arc<Seen>,
    notes: Vec<String>,
    timer: Option<ScheduledTimer>,
    gate: Arc<Gate>,
}
#[derive(Default)]
struct Gate {
    waiting: Mutex<Vec<std::task::Waker>>,
    open: AtomicU64,
}
impl Gate {
    fn wait(self: Arc<Self>) -> impl Future<Output = ()> + Send {
        let mut first = true;
        let until = self.open.load(SeqCst) + 1;
        std::future::poll_fn(move |cx| {
            if self.open.load(SeqCst) >= until && !first {
                return std::task::Poll::Ready(());
            }
            first = false;
            self.waiting.lock().unwrap().push(cx.waker().clone());
            if self.open.load(SeqCst) >= until {
                cx.waker().wake_by_ref();
            }
            std::task::Poll::Pending
        })
    }
    fn open(&self) {
        self.open.fetch_add(1, SeqCst);
        let w = std::mem::take(&mut *self.waiting.lock().unwrap());
        for w in w {
            w.wake();
        }
    }
}
impl ComponentLifecycle for Cell {
    fn on_kill(&mut self) -> HandlerResult {
        self.seen.ended.fetch_add(1, Relaxed);
        if let Some(t) = self.timer.take() {
            self.cancel_timer(t);
        }
        Handled::OK
    }
}
impl Provide<PingPort> for Cell {
    fn handle(&mut self, r: Box<u64>) -> HandlerResult {
        self.seen.requests.fetch_add(1, Relaxed);
        if *r > 0 {
            self.up.trigger(Arc::new(format!("echo {}", r)));
        }
        Handled::OK
    }
}
impl Require<PingPort> for Cell {
    fn handle(&mut self, i: Arc<String>) -> HandlerResult {
        self.seen.indications.fetch_add(1, Relaxed);
        self.notes.push(i.to_string());
        Handled::OK
    }
}
impl Actor for Cell {
    type Message = M;
    fn receive_local(&mut self, m: M) -> HandlerResult {
        self.seen.messages.fetch_add(1, Relaxed);
        self.notes.push(format!("{:?}", m).chars().take(6).collect());
        let peer = |s: &Cell, i: usize| s.peers.get(i % s.peers.len().max(1)).cloned();
        match m {
            M::Work(_) => Handled::OK,
            M::Fan(n) => {
                for i in 0..n {
                    if let Some(p) = peer(self, i as usize) {
                        p.tell(M::Work(Box::new(i as u64)));
                    }
                }
                Handled::OK
            }
            M::Trigger => {
                self.down.trigger(Box::new(3));
                self.up.trigger(Arc::new("by myself".into()));
                Handled::OK
            }
            M::Ask(a) => {
                a.reply(Box::new(7)).ok();
                Handled::OK
            }
            M::AskOther => {
                let Some(p) = peer(self, 0) else { return Handled::OK };
                Handled::block_on(self, async move |mut me| {
                    let r = p.ask_with(|pr| M::Ask(Ask::new(pr, Box::new(1)))).await;
                    me.notes.push(format!("{:?}", r.is_ok()));
                    me.seen.answers.fetch_add(1, Relaxed);
                    Handled::OK
                })
            }
            M::Block => {
                let g = self.gate.clone();
                Handled::block_on(self, async move |mut me| {
                    me.notes.push("blocked".into());
                    g.clone().wait().await;
                    me.notes.push("unblocked".into());
                    me.seen.blocked.fetch_add(1, Relaxed);
                    let d = Duration::from_millis(1);
                    me.schedule_once(d, |c, _| {
                        c.seen.timers.fetch_add(1, Relaxed);
                        Handled::OK
                    });
                    me.up.trigger(Arc::new("from a future".into()));
                    Handled::OK
                })
            }
            M::Local => {
                let g = self.gate.clone();
                self.spawn_local(async move |mut me| {
                    me.notes.push("local".into());
                    let inner = g.clone();
                    me.spawn_local(async move |mut me2| {
                        inner.wait().await;
                        me2.notes.push("inner".into());
                        me2.seen.locals.fetch_add(1, Relaxed);
                        Handled::OK
                    });
                    g.wait().await;
                    me.notes.push("again".into());
                    me.seen.locals.fetch_add(1, Relaxed);
                    Handled::OK
                });
                Handled::OK
            }
            M::Once(ms) => {
                let t = self.schedule_once(Duration::from_millis(ms), |c, _| {
                    c.seen.timers.fetch_add(1, Relaxed);
                    c.notes.push("once".into());
                    Handled::OK
                });
                if ms % 2 == 0 {
                    if let Some(o) = self.timer.replace(t) {
                        self.cancel_timer(o);
                    }
                }
                Handled::OK
            }
            M::Every(ms) => {
                let d = Duration::from_millis(ms.max(1));
                let t = self.schedule_periodic(d, d, |c, t| {
                    c.seen.timers.fetch_add(1, Relaxed);
                    if c.notes.len() > 12 {
                        c.cancel_timer(t);
                    }
                    c.notes.push("every".into());
                    Handled::OK
                });
                if let Some(o) = self.timer.replace(t) {
                    self.cancel_timer(o);
                }
                Handled::OK
            }
            M::Cancel => {
                if let Some(t) = self.timer.take() {
                    self.cancel_timer(t);
                }
                Handled::OK
            }
            M::Die => Handled::SHUTDOWN,
            M::Fail => Err(HandlerError::unrecoverable(std::io::Error::other("planned"))),
            M::Panic => {
                QUIET.with(|q| q.set(true));
                panic!("planned")
            }
            M::Register(n) => {
                let me = self.ctx.typed_component();
                let f = self.ctx.system().register_by_alias(&me, n);
                self.spawn_local(async move |mut me| {
                    let r = f.await;
                    me.notes.push(format!("{}", r.is_ok()));
                    Handled::OK
                });
                Handled::OK
            }
        }
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        self.seen.network.fetch_add(1, Relaxed);
        if let Ok(s) = m.try_deserialise::<String, String>() {
            self.notes.push(s);
        }
        Handled::OK
    }
}

fn command(r: &mut Rng) -> M {
    match r.below(18) {
        0..=1 => M::Work(Box::new(r.next())),
        2..=3 => M::Fan(r.range(1, 3) as u32),
        4..=5 => M::Trigger,
        6..=7 => M::AskOther,
        8..=9 => M::Block,
        10..=11 => M::Local,
        12 => M::Once(r.below(5) as u64),
        13 => M::Every(r.range(1, 3) as u64),
        14 => M::Cancel,
        15 => M::Register(["a", "b", "a/b"][r.below(3)]),
        _ => match r.below(4) {
            0 => M::Die,
            1 => M::Fail,
            2 => M::Panic,
            _ => M::Trigger,
        },
    }
}

fn case(rep: &Arc<Report>, c: u64, seed: u64) {
    let mut r = Rng::new(seed);
    let pool = Pool::default();
    pool.0.inline.store(true, SeqCst);
    let mut cfg = KompactConfig::default();
    cfg.logger(null_logger());
    let timer: ManualTimer = install_manual_timer(&mut cfg);
    let p2 = pool.clone();
    cfg.scheduler(move |_| p2.box_clone());
    let t = *r.pick(&[1usize, 2, 50]);
    cfg.set_config_value(&kompact::config_keys::system::THROUGHPUT, t);
    let sys = cfg.build().wait().expect("build");
    pool.0.inline.store(false, SeqCst);
    let workers: Vec<_> = (0..r.range(1, 2))
        .map(|_| {
            let p = pool.clone();
            std::thread::spawn(move || p.work())
        })
        .collect();
    let seen = Arc::new(Seen::default());
    let gate = Arc::new(Gate::default());
    let n = r.range(2, 3);
    let mut comps: Vec<Arc<Component<Cell>>> = Vec::new();
    for _ in 0..n {
        let (s, g) = (seen.clone(), gate.clone());
        let peers = comps.iter().map(|c| c.actor_ref()).collect();
        comps.push(sys.create(|| Cell {
            ctx: ComponentContext::uninitialised(),
            up: ProvidedPort::uninitialised(),
            down: RequiredPort::uninitialised(),
            peers,
            seen: s,
            notes: Vec::new(),
            timer: None,
            gate: g,
        }));
    }
    for i in 1..n {
        let _ = biconnect_components::<PingPort, _, _>(&comps[i - 1], &comps[i]);
    }
    for c in &comps {
        sys.start(c);
    }
    let mut reg = Some(sys.register_by_alias(&comps[0], "a"));
    // several threads at once
    let senders: Vec<_> = (0..2)
        .map(|k| {
            let mut r = Rng::new(mix(seed, 100 + k));
            let comps = if k == 0 { comps.clone() } else { vec![comps[0].clone()] };
            let (sys, gate, timer) = (sys.clone(), gate.clone(), timer.clone());
            std::thread::spawn(move || {
                let mut asks = Vec::new();
                for _ in 0..r.range(3, 8) {
                    let c = r.pick(&comps).clone();
                    match r.below(12) {
                        0..=5 => c.actor_ref().tell(command(&mut r)),
                        6 => asks.push(c.actor_ref().ask_with(|p| M::Ask(Ask::new(p, Box::new(5))))),
                        // panics if the component did
                        7 => {
                            QUIET.with(|q| q.set(true));
                            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.on_definition(|d| d.notes.push("outside".into()))));
                            QUIET.with(|q| q.set(false));
                        }
                        8 => {
                            QUIET.with(|q| q.set(true));
                            let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.provided_ref()));
                            QUIET.with(|q| q.set(false));
                            if let Ok(p) = p {
                                sys.trigger_r(Box::new(r.below(2) as u64), &p);
                            }
                        }
                        9 => gate.open(),
                        10 if k == 0 => timer.advance_by(Duration::from_millis(1)),
                        10 => c.actor_ref().tell(M::Local),
                        11 if k == 0 && r.chance(1, 2) => {
                            let path: ActorPath = NamedPath::with_system(sys.system_path(), vec!["a".into()]).into();
                            path.tell("hello".to_string(), &sys);
                        }
                        _ => match r.below(6) {
                            0 => sys.kill(c),
                            1 => sys.stop(&c),
                            2 => sys.start(&c),
                            3 => {
                                asks.pop();
                            }
                            _ => {
                                let path: ActorPath = NamedPath::with_system(sys.system_path(), vec!["a".into()]).into();
                                path.tell("hello".to_string(), &sys);
                            }
                        },
                    }
                }
                asks.into_iter().filter(|_| r.chance(1, 2)).map(|a| a.wait_timeout_poll(&gate)).filter(|x| *x).count() as u64
            })
        })
        .collect();
    let mut answered = 0;
    for s in senders {
        answered += s.join().expect("sender");
    }
    for _ in 0..6 {
        if let Some(f) = reg.as_mut()
            && let std::task::Poll::Ready(r) = std::pin::Pin::new(f).poll(&mut std::task::Context::from_waker(&futures::task::noop_waker()))
        {
            if let Ok(Ok(p)) = r {
                p.tell("to the alias".to_string(), &sys);
                p.tell_with_sender("to the alias".to_string(), &sys, p.clone());
            }
            reg = None;
        }
        gate.open();
        timer.advance_by(Duration::from_millis(1));
        for _ in 0..200 {
            if pool.idle() {
                break;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    drop(comps);
    pool.shutdown_async();
    for w in workers {
        w.join().expect("worker");
    }
    rep.count("executions", pool.0.executions.load(SeqCst));
    rep.count("messages handled", seen.messages.load(SeqCst));
    rep.count("indications handled", seen.indications.load(SeqCst));
    rep.count("requests handled", seen.requests.load(SeqCst));
    rep.count("timers fired", seen.timers.load(SeqCst));
    rep.count("answers awaited inside", seen.answers.load(SeqCst));
    rep.count("answers awaited outside", answered);
    rep.count("blocking futures completed", seen.blocked.load(SeqCst));
    rep.count("local futures completed", seen.locals.load(SeqCst));
    rep.count("network messages handled", seen.network.load(SeqCst));
    rep.count("components ended", seen.ended.load(SeqCst));
    rep.eval(mix(seed, c), seen.messages.load(SeqCst) > 2);
    if rep.wants_sample() {
        rep.sample(serde_json::json!({"case": c, "components": n, "messages": seen.messages.load(SeqCst)}));
    }
    take_local_panics();
}

trait Outside {
    fn wait_timeout_poll(self, g: &Gate) -> bool;
}
impl<T: Send + 'static> Outside for KFuture<T> {
    fn wait_timeout_poll(mut self, g: &Gate) -> bool {
        let w = futures::task::noop_waker();
        let mut cx = std::task::Context::from_waker(&w);
        for _ in 0..50 {
            if let std::task::Poll::Ready(r) = std::pin::Pin::new(&mut self).poll(&mut cx) {
                return r.is_ok();
            }
            g.open();
            std::thread::sleep(Duration::from_micros(300));
        }
        false
    }
}

pub fn run(rep: &Arc<Report>) {
    rep.run_cases(1, 1.0, u64::MAX, case);
}
