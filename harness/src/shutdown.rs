//! C10: whole systems with chattering components are shut down in every way, while a second system
//! in the same process keeps working.
use crate::util::*;
use kompact::prelude::*;
use serde_json::json;
use std::{
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst},
    },
    time::{Duration, Instant},
};

struct Shared {
    down: AtomicBool,
    busy: AtomicI64,
    handled: AtomicU64,
    limit: AtomicU64,
    refs: Mutex<Vec<ActorRef<C>>>,
    bad: Mutex<Vec<(String, String)>>,
    lives: AtomicI64,
    gate: Mutex<Vec<KPromise<()>>>,
}
impl Shared {
    fn bad(&self, s: &str, d: String) {
        let mut b = self.bad.lock().unwrap();
        if b.len() < 10 {
            b.push((s.into(), d));
        }
    }
}
#[derive(Default)]
struct Mark {
    starts: AtomicU64,
    kills: AtomicU64,
    stops: AtomicU64,
    failed: AtomicBool,
    drops: AtomicU64,
}

#[derive(Debug, Clone)]
enum C {
    Chat(u32),
    Down,
    DownLater,
    Local,
    Block,
    Timer,
    Boom,
    Quit,
    Make,
    Ind,
}

#[derive(Clone, Debug)]
struct Chatter;
impl Port for Chatter {
    type Indication = u32;
    type Request = u32;
}

#[derive(ComponentDefinition)]
struct Node {
    ctx: ComponentContext<Self>,
    pp: ProvidedPort<Chatter>,
    rp: RequiredPort<Chatter>,
    sh: Arc<Shared>,
    mark: Arc<Mark>,
    idx: usize,
    rng: Rng,
    on_start_down: bool,
    on_stop_block: bool,
}
impl Drop for Node {
    fn drop(&mut self) {
        self.sh.lives.fetch_sub(1, SeqCst);
        self.mark.drops.fetch_add(1, SeqCst);
    }
}
struct In(Arc<Shared>);
impl Drop for In {
    fn drop(&mut self) {
        self.0.busy.fetch_sub(1, SeqCst);
    }
}
impl Node {
    fn enter(&self, what: &str) -> In {
        self.sh.busy.fetch_add(1, SeqCst);
        self.sh.handled.fetch_add(1, SeqCst);
        if self.sh.down.load(SeqCst) {
            self.sh.bad("handler-after-shutdown", format!("component {} ran a {} handler after the shutdown had completed", self.idx, what));
        }
        if self.mark.kills.load(SeqCst) > 0 {
            self.sh.bad("handler-after-kill", format!("component {} ran a {} handler after its kill hook", self.idx, what));
        }
        In(self.sh.clone())
    }
    fn chat(&mut self, ttl: u32) {
        if ttl == 0 || self.sh.handled.load(SeqCst) > self.sh.limit.load(SeqCst) {
            return;
        }
        let refs = self.sh.refs.lock().unwrap().clone();
        for _ in 0..self.rng.range(1, 2) {
            let r = self.rng.pick(&refs).clone();
            r.tell(C::Chat(ttl - 1));
        }
        if self.rng.chance(1, 4) {
            self.pp.trigger(ttl - 1);
        }
        if self.rng.chance(1, 4) {
            self.rp.trigger(ttl - 1);
        }
    }
}
impl ComponentLifecycle for Node {
    fn on_start(&mut self) -> HandlerResult {
        let _i = self.enter("start");
        self.mark.starts.fetch_add(1, SeqCst);
        if self.on_start_down {
            self.ctx.system().shutdown_async();
        }
        Handled::OK
    }
    fn on_stop(&mut self) -> HandlerResult {
        let _i = self.enter("stop");
        self.mark.stops.fetch_add(1, SeqCst);
        Handled::OK
    }
    fn on_kill(&mut self) -> HandlerResult {
        let _i = self.enter("kill");
        self.mark.kills.fetch_add(1, SeqCst);
        if self.on_stop_block {
            let (p, f) = promise::<()>();
            let later = p;
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_millis(2));
                let _ = later.fulfil(());
            });
            return Handled::block_on(self, move |_s| async move {
                let _ = f.await;
                Handled::OK
            });
        }
        if self.rng.chance(1, 3) {
            self.chat(5);
        }
        Handled::OK
    }
}
impl Provide<Chatter> for Node {
    fn handle(&mut self, e: u32) -> HandlerResult {
        let _i = self.enter("request");
        self.chat(e);
        Handled::OK
    }
}
impl Require<Chatter> for Node {
    fn handle(&mut self, e: u32) -> HandlerResult {
        let _i = self.enter("indication");
        self.chat(e);
        Handled::OK
    }
}
impl Actor for Node {
    type Message = C;
    fn receive_local(&mut self, m: C) -> HandlerResult {
        let i = self.enter("message");
        match m {
            C::Chat(t) => self.chat(t),
            C::Down => self.ctx.system().shutdown_async(),
            C::DownLater => {
                let (p, f) = promise::<()>();
                self.sh.gate.lock().unwrap().push(p);
                self.spawn_local(move |s| async move {
                    let _ = f.await;
                    s.ctx.system().shutdown_async();
                    Handled::OK
                });
            }
            C::Local => {
                let (p, f) = promise::<()>();
                self.sh.gate.lock().unwrap().push(p);
                self.spawn_local(move |s| async move {
                    let _ = f.await;
                    let _i = s.enter("local future");
                    Handled::OK
                });
            }
            C::Block => {
                let (p, f) = promise::<()>();
                self.sh.gate.lock().unwrap().push(p);
                drop(i);
                return Handled::block_on(self, move |s| async move {
                    let _ = f.await;
                    let _i = s.enter("blocking future");
                    Handled::OK
                });
            }
            C::Timer => {
                let d = Duration::from_micros(self.rng.range(0, 4000) as u64);
                if self.rng.chance(1, 2) {
                    self.schedule_once(d, |s, _| {
                        let _i = s.enter("timer");
                        s.chat(3);
                        Handled::OK
                    });
                } else {
                    self.schedule_periodic(d, Duration::from_millis(1), |s, _| {
                        let _i = s.enter("timer");
                        s.chat(2);
                        Handled::OK
                    });
                }
            }
            C::Boom => {
                self.mark.failed.store(true, SeqCst);
                drop(i);
                std::panic::panic_any(Intended(self.idx as u64));
            }
            C::Quit => return Ok(Handled::Shutdown),
            C::Make => {
                let (sh, idx, seed) = (self.sh.clone(), 100, self.rng.next());
                let mark = Arc::new(Mark::default());
                let sys = self.ctx.system();
                let c = sys.create(move || node(&sh, &mark, idx, seed));
                sys.start(&c);
            }
            C::Ind => self.pp.trigger(3),
        }
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let _i = self.enter("network");
        let s = m.sender.clone();
        if let Ok(t) = m.try_deserialise::<u64, u64>() {
            if t > 0 {
                s.tell(t - 1, self);
            }
        }
        Handled::OK
    }
}

fn node(sh: &Arc<Shared>, mark: &Arc<Mark>, idx: usize, seed: u64) -> Node {
    sh.lives.fetch_add(1, SeqCst);
    Node {
        ctx: ComponentContext::uninitialised(),
        pp: ProvidedPort::uninitialised(),
        rp: RequiredPort::uninitialised(),
        sh: sh.clone(),
        mark: mark.clone(),
        idx,
        rng: Rng::new(seed),
        on_start_down: false,
        on_stop_block: false,
    }
}

/// a component of the other system: counts a message it keeps sending to itself, and a timer
#[derive(ComponentDefinition)]
struct Witness {
    ctx: ComponentContext<Self>,
    n: Arc<AtomicU64>,
    ticks: Arc<AtomicU64>,
    bad: Arc<AtomicU64>,
}
impl ComponentLifecycle for Witness {
    fn on_start(&mut self) -> HandlerResult {
        self.schedule_periodic(Duration::from_millis(1), Duration::from_millis(1), |s, _| {
            s.ticks.fetch_add(1, SeqCst);
            Handled::OK
        });
        Handled::OK
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.bad.fetch_add(1, SeqCst);
        Handled::OK
    }
}
impl Actor for Witness {
    type Message = u64;
    fn receive_local(&mut self, m: u64) -> HandlerResult {
        if self.n.fetch_add(1, SeqCst) != m {
            self.bad.fetch_add(1, SeqCst);
        }
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn build(r: &mut Rng, net: bool) -> Option<KompactSystem> {
    let mut c = KompactConfig::default();
    c.logger(null_logger());
    #[allow(deprecated)]
    {
        c.threads(*r.pick(&[1usize, 2, 3, 4]));
        c.throughput(*r.pick(&[1usize, 2, 50]));
    }
    match r.below(4) {
        0 => {
            c.executor(::kompact::executors::crossbeam_workstealing_pool::small_pool);
        }
        1 => {
            c.executor(::kompact::executors::crossbeam_channel_pool::ThreadPool::new);
        }
        _ => (),
    }
    #[cfg(feature = "net")]
    if net {
        c.system_components(DeadletterBox::new, kompact_net::NetworkConfig::default().build());
    }
    let _ = net;
    c.build().wait().ok()
}

fn within<T: Send + 'static>(d: Duration, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .name("shutdown-caller".into())
        .spawn(move || {
            let _ = tx.send(f());
        })
        .unwrap();
    rx.recv_timeout(d).ok()
}

/// whether `f` works without panicking
fn quietly<T>(f: impl FnOnce() -> T) -> bool {
    QUIET.with(|q| q.set(true));
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok();
    QUIET.with(|q| q.set(false));
    ok
}

const PATIENCE: Duration = Duration::from_secs(60);

fn case(rep: &Arc<Report>, c: u64, seed: u64) {
    let mut r = Rng::new(seed);
    take_panics();
    let net = cfg!(feature = "net") && r.chance(1, 6);
    let (Some(sys), Some(other)) = (build(&mut r, net), build(&mut r, net)) else {
        return rep.inconclusive("no system");
    };
    rep.hang_limit(Duration::from_secs(150));
    let (wn, wt, wb) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let (a, b, d) = (wn.clone(), wt.clone(), wb.clone());
    let wit = other.create(move || Witness { ctx: ComponentContext::uninitialised(), n: a, ticks: b, bad: d });
    if other.start_notify(&wit).wait_timeout(PATIENCE).is_err() {
        return rep.inconclusive("slow start");
    }
    let mut wseq = 0u64;
    let sh = Arc::new(Shared {
        down: AtomicBool::new(false),
        busy: AtomicI64::new(0),
        handled: AtomicU64::new(0),
        limit: AtomicU64::new(r.range(100, 6000) as u64),
        refs: Mutex::new(vec![]),
        bad: Mutex::new(vec![]),
        lives: AtomicI64::new(0),
        gate: Mutex::new(vec![]),
    });
    let n = r.range(0, 6);
    let mut comps = vec![];
    let mut marks = vec![];
    let mut blocks = vec![];
    for i in 0..n {
        let mark = Arc::new(Mark::default());
        let (sh2, m2, s2) = (sh.clone(), mark.clone(), r.next());
        let blockkill = r.chance(1, 6);
        blocks.push(blockkill);
        let f = move || {
            let mut x = node(&sh2, &m2, i, s2);
            x.on_stop_block = blockkill;
            x
        };
        let k = if r.chance(1, 4) { sys.create_dedicated(f) } else { sys.create(f) };
        sh.refs.lock().unwrap().push(k.actor_ref());
        comps.push(k);
        marks.push(mark);
    }
    for _ in 0..n {
        let (x, y) = (r.below(n), r.below(n));
        if x != y {
            for _ in 0..200 {
                if biconnect_components::<Chatter, _, _>(&comps[x], &comps[y]).is_ok() {
                    break;
                }
                std::thread::sleep(Duration::from_micros(100));
            }
        }
    }
    // must-kill: started for certain before the shutdown begins
    let mut certain = vec![false; n];
    let mut maybe = vec![false; n];
    let mut fs = vec![];
    for i in 0..n {
        if r.chance(5, 6) {
            fs.push(sys.start_notify(&comps[i]));
            certain[i] = true;
        }
    }
    for f in fs {
        if f.wait_timeout(PATIENCE).is_err() {
            return rep.inconclusive("slow start");
        }
    }
    let mut fs = vec![];
    for i in 0..n {
        if certain[i] && r.chance(1, 8) {
            fs.push(sys.stop_notify(&comps[i]));
        }
    }
    for f in fs {
        if f.wait_timeout(PATIENCE).is_err() {
            return rep.inconclusive("slow stop");
        }
    }
    let mut log = vec![];
    let kinds = [C::Chat(30), C::Local, C::Timer, C::Block, C::Boom, C::Quit, C::Make, C::Ind];
    if n > 0 {
        for _ in 0..r.range(0, 12) {
            let i = r.below(n);
            // (the kill hook after Handled::Shutdown must not block, by design)
            let quit = if blocks[i] { 0 } else { 1 };
            let m = kinds[r.weighted(&[12, 4, 4, 3, 1, quit, 2, 4])].clone();
            log.push(format!("{}:{:?}", i, m));
            if matches!(m, C::Boom | C::Quit) {
                certain[i] = false;
                maybe[i] = true;
            }
            comps[i].actor_ref().tell(m);
        }
    }
    #[cfg(feature = "net")]
    if net && n > 0 {
        let ok = within(PATIENCE, {
            let f = sys.register(&comps[0]);
            move || f.wait()
        });
        if let Some(Ok(p)) = ok {
            let q = p.clone();
            for _ in 0..r.range(1, 20) {
                q.tell(5u64, &other);
            }
            log.push("network".into());
        }
    }
    // outside threads keep sending until well after the end
    let stop = Arc::new(AtomicBool::new(false));
    let mut floods = vec![];
    if n > 0 {
        for s in 0..r.below(3) {
            let refs = sh.refs.lock().unwrap().clone();
            let stop = stop.clone();
            let mut r = Rng::new(mix(seed, s as u64 + 9));
            floods.push(std::thread::spawn(move || {
                let mut k = 0u64;
                while !stop.load(SeqCst) && k < 30_000 {
                    refs[r.below(refs.len())].tell(C::Chat(2));
                    k += 1;
                    for _ in 0..r.below(300) {
                        std::hint::spin_loop();
                    }
                }
                k
            }));
        }
    }
    let spins = r.below(3000);
    for _ in 0..spins {
        std::hint::spin_loop();
    }
    let term = if r.chance(1, 8) {
        let f = { sys.terminated() };
        // the future is not Send, so another handle waits on its own thread
        drop(f);
        let s2 = sys.clone();
        let (tx, rx) = std::sync::mpsc::channel();
        let done = Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        let way = r.chance(1, 2);
        std::thread::spawn(move || {
            if way { s2.await_termination() } else { s2.terminated().wait() }
            d2.store(true, SeqCst);
            let _ = tx.send(());
        });
        Some((rx, done))
    } else {
        None
    };
    if let Some((_, done)) = &term {
        std::thread::sleep(Duration::from_millis(r.range(0, 3) as u64));
        if done.load(SeqCst) {
            sh.bad("terminated-too-early", "waiting for termination returned although nobody had shut the system down".into());
        }
    }
    // components blocked by a gate must be let go for the shutdown to finish
    let (sh2, stop2) = (sh.clone(), stop.clone());
    let opener = std::thread::spawn(move || {
        loop {
            let g = std::mem::take(&mut *sh2.gate.lock().unwrap());
            let empty = g.is_empty();
            for p in g {
                let _ = p.fulfil(());
            }
            if stop2.load(SeqCst) && empty {
                break;
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    });
    // ---- shut down
    let mut way = r.below(8);
    if n == 0 && matches!(way, 2 | 3 | 4 | 5) {
        way = 0;
    }
    // (an unstarted component has no say)
    let who = (0..n).filter(|i| certain[*i] && marks[*i].stops.load(SeqCst) == 0).collect::<Vec<_>>();
    if who.is_empty() && matches!(way, 2 | 3 | 4) {
        way = 1;
    }
    let way_name = ["shutdown", "shutdown_async", "from a handler", "from several handlers", "from a local future", "from a start hook", "kill_system", "shutdown again after giving up waiting"][way];
    let handle = sys.clone();
    let mut result = None;
    match way {
        0 => {
            let f = sys.clone().shutdown();
            result = Some(within(PATIENCE, move || f.wait().map_err(|e| format!("{}", e))));
        }
        1 => sys.shutdown_async(),
        2 => comps[*r.pick(&who)].actor_ref().tell(C::Down),
        3 => {
            for _ in 0..r.range(2, 4) {
                comps[*r.pick(&who)].actor_ref().tell(C::Down);
            }
        }
        4 => comps[*r.pick(&who)].actor_ref().tell(C::DownLater),
        5 => {
            let mark = Arc::new(Mark::default());
            let (sh2, m2, s2) = (sh.clone(), mark.clone(), r.next());
            let k = sys.create(move || {
                let mut x = node(&sh2, &m2, 200, s2);
                x.on_start_down = true;
                x
            });
            sys.start(&k);
        }
        7 => {
            let f = sys.clone().shutdown();
            let d = Duration::from_micros(r.range(0, 400) as u64);
            if let Err(f) = block_until(d, f) {
                drop(f);
                for _ in 0..r.below(3000) {
                    std::hint::spin_loop();
                }
                let f = sys.clone().shutdown();
                result = Some(within(PATIENCE, move || f.wait().map_err(|e| format!("{}", e))));
            } else {
                result = Some(Some(Ok(())));
            }
        }
        _ => {
            let s2 = sys.clone();
            result = Some(within(PATIENCE, move || s2.kill_system().map_err(|e| format!("{}", e))));
        }
    }
    let mut completed = false;
    match result {
        Some(None) => sh.bad("shutdown-hangs", format!("{} did not complete within {:?}", way_name, PATIENCE)),
        Some(Some(Err(e))) => sh.bad("shutdown-fails", format!("{} reported: {}", way_name, e)),
        Some(Some(Ok(()))) => completed = true,
        None => {
            // asynchronous: wait for the announced end
            let h2 = handle.clone();
            let slow = r.chance(1, 10);
            let ended = move || {
                if slow {
                    return h2.terminated().wait();
                }
                // (terminated() looks only once per second)
                while quietly(|| h2.system_path()) {
                    std::thread::sleep(Duration::from_micros(200));
                }
            };
            if within(PATIENCE, ended).is_none() {
                sh.bad("shutdown-hangs", format!("shutdown ({}) did not complete within {:?}", way_name, PATIENCE));
            } else {
                completed = true;
            }
        }
    }
    let ok = completed;
    if ok {
        // nothing runs any more
        if way == 0 || way >= 6 {
            sh.down.store(true, SeqCst);
            let b = sh.busy.load(SeqCst);
            if b != 0 {
                sh.bad("handler-during-completion", format!("{} handlers were still running when {} completed", b, way_name));
            }
        } else {
            // all components are dead once the system counts as terminated
            sh.down.store(true, SeqCst);
        }
        for i in 0..n {
            let (s, k) = (marks[i].starts.load(SeqCst), marks[i].kills.load(SeqCst));
            let f = marks[i].failed.load(SeqCst);
            if certain[i] && k != 1 {
                sh.bad("kill-hook-count", format!("component {} was started ({} times) but its kill hook ran {} times when the system was shut down ({})", i, s, k, way_name));
            }
            if maybe[i] && (k > 1 || (f && k > 0) || (!f && s > 0 && k != 1)) {
                sh.bad("kill-hook-count", format!("component {}, failed {}: kill hook ran {} times ({})", i, f, k, way_name));
            }
            if !certain[i] && !maybe[i] && (k > 0 || s > 0) {
                sh.bad("unstarted-component-ran", format!("component {} was never started but ran {} start and {} kill hooks", i, s, k));
            }
        }
        let before = sh.handled.load(SeqCst);
        // later use is harmless
        for x in &comps {
            for _ in 0..20 {
                x.actor_ref().tell(C::Chat(3));
            }
            x.actor_ref().hold().map(|s| s.tell(C::Ind));
        }
        std::thread::sleep(Duration::from_micros(r.range(0, 3000) as u64));
        if (way == 0 || way >= 6) && sh.handled.load(SeqCst) != before {
            sh.bad("handler-after-shutdown", "messages sent after shutdown were handled".into());
        }
        if let Some((rx, _)) = &term {
            if rx.recv_timeout(Duration::from_secs(30)).is_err() {
                sh.bad("termination-not-seen", format!("waiting for termination did not return within 30 s after the shutdown ({})", way_name));
            }
            rep.count("termination_waits", 1);
        }
    }
    stop.store(true, SeqCst);
    for f in floods {
        if f.join().map(|k| rep.count("messages_sent_during_shutdown", k)).is_err() {
            sh.bad("sender-panicked", "sending to a component of a system being shut down panicked".into());
        }
    }
    let _ = opener.join();
    // the other system works on
    for _ in 0..50 {
        wit.actor_ref().tell(wseq);
        wseq += 1;
    }
    let t0 = Instant::now();
    let ticks = wt.load(SeqCst);
    while (wn.load(SeqCst) < wseq || wt.load(SeqCst) == ticks) && t0.elapsed() < Duration::from_secs(30) {
        std::thread::sleep(Duration::from_micros(300));
    }
    if wn.load(SeqCst) != wseq || wt.load(SeqCst) == ticks || wb.load(SeqCst) != 0 {
        sh.bad("other-system-disturbed", format!("after {} of one system another one handled {} of {} messages and {} ticks ({} anomalies)", way_name, wn.load(SeqCst), wseq, wt.load(SeqCst) - ticks, wb.load(SeqCst)));
    }
    // everything is released
    drop(handle);
    drop(sys);
    comps.clear();
    sh.refs.lock().unwrap().clear();
    if ok {
        let t0 = Instant::now();
        let kept = || marks.iter().filter(|m| m.kills.load(SeqCst) > 0 && m.drops.load(SeqCst) == 0).count();
        while kept() != 0 && t0.elapsed() < Duration::from_secs(20) {
            std::thread::sleep(Duration::from_micros(300));
        }
        if kept() != 0 {
            sh.bad("not-released", format!("{} components are still allocated 20 s after {} although nothing refers to them any more", kept(), way_name));
        }
        if marks.iter().any(|m| m.drops.load(SeqCst) > 1) {
            sh.bad("released-twice", "a component was dropped twice".into());
        }
        if sh.lives.load(SeqCst) != 0 {
            // never started, but scheduled when the threads ended
            rep.count("unstarted_components_left", sh.lives.load(SeqCst) as u64);
        }
    }
    let f = other.shutdown();
    match within(PATIENCE, move || f.wait().is_ok()) {
        Some(true) => (),
        x => sh.bad("shutdown-hangs", format!("shutdown of the other system: {:?}", x)),
    }
    rep.count("handlers_observed", sh.handled.load(SeqCst));
    rep.count(&format!("way_{}", way_name.replace(' ', "_")), 1);
    rep.count("components", n as u64);
    rep.count("kill_hooks", marks.iter().map(|m| m.kills.load(SeqCst)).sum());
    if net {
        rep.count("networked_systems", 1);
    }
    rep.eval(mix(seed, sh.handled.load(SeqCst)), n > 0);
    if rep.wants_sample() && n > 2 {
        rep.sample(json!({"case": c, "how": way_name, "components": n, "messages": log, "handled": sh.handled.load(SeqCst)}));
    }
    for (s, d) in sh.bad.lock().unwrap().iter() {
        rep.violation(s, c, d.clone(), json!({"seed": seed, "how": way_name, "network": net, "messages": log}));
    }
    for p in take_panics().iter().take(3) {
        let file = p.location.rsplit_once('/').map(|x| x.1).unwrap_or("").split(':').next().unwrap_or("").to_string();
        rep.violation(&format!("panic {}", file), c, format!("panic on thread {}: {} at {} ({})", p.thread, p.message, p.location, way_name), json!({"seed": seed, "how": way_name}));
    }
}

pub fn c10(rep: &Arc<Report>) {
    rep.rule("a case is one system shut down in one of seven ways while its components and outside threads are busy, next to a second system; it is non-trivial if the system had components");
    rep.run_cases(8, 1.0, u64::MAX, case);
}
