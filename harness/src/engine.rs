//! Random component programs on a deterministic scheduler, monitored online against an exact
//! executable model of what each component may and must do.
use crate::{det::*, util::*};
use futures::task::{ArcWake, waker};
use kompact::prelude::*;
use serde_json::json;
use std::{
    collections::{BTreeMap, HashMap, VecDeque},
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
    time::Duration,
};
use uuid::Uuid;

// ------------------------------------------------------------------ scripts

#[derive(Clone, Debug)]
pub enum Act {
    Tell { dst: usize, via: u8, cmd: Arc<Cmd> },
    Trig { port: u8, cmd: Arc<Cmd> },
    Once { delay: u64, cmd: Arc<Cmd> },
    Periodic { delay: u64, period: u64, fires: u32, cmd: Arc<Cmd> },
    Cancel { pick: u32 },
    Spawn { fut: Arc<FutScript> },
    Life { dst: usize, op: Op, notify: bool },
    Suicide,
    Open { gate: usize },
}
#[derive(Clone, Debug)]
pub enum End {
    Ok,
    Block(Arc<FutScript>),
    Shutdown,
    Benign,
    Recoverable,
    Unrecoverable,
    Panic,
}
#[derive(Clone, Debug)]
pub struct Cmd {
    pub acts: Vec<Act>,
    pub end: End,
}
#[derive(Clone, Copy, Debug)]
pub enum Wait {
    Gate(usize),
    Yield,
    /// yields until the component got to handle something else
    Spin,
}
#[derive(Clone, Debug)]
pub struct FutScript {
    pub first: Vec<Act>,
    pub steps: Vec<(Wait, Vec<Act>)>,
    pub end: End,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Start,
    Stop,
    Kill,
}

pub struct Token(Arc<std::sync::atomic::AtomicI64>);
impl Token {
    fn new(c: &Arc<std::sync::atomic::AtomicI64>) -> Token {
        c.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Token(c.clone())
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        Token::new(&self.0)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        self.0.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}
impl std::fmt::Debug for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "tok")
    }
}

/// A message or port event: identity, checksum-able content, and what to do on receipt.
#[derive(Clone, Debug)]
pub struct Ev {
    pub id: u64,
    pub dir: u8,
    pub body: Vec<u8>,
    pub cmd: Arc<Cmd>,
    pub tok: Token,
}
fn body_of(id: u64) -> Vec<u8> {
    let mut r = Rng::new(id);
    let n = (id % 23) as usize;
    r.bytes(n)
}
#[derive(Debug)]
pub struct Wrapped(pub Ev);
impl From<Wrapped> for Ev {
    fn from(w: Wrapped) -> Ev {
        w.0
    }
}

pub struct PA;
impl Port for PA {
    type Indication = Ev;
    type Request = Ev;
}
pub struct PB;
impl Port for PB {
    type Indication = Ev;
    type Request = Ev;
}

// ------------------------------------------------------------------ model

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Passive,
    Active,
    Dying,
    Dead,
    Faulty,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Hk {
    Msg,
    Port(u8),
    Timer,
    Start,
    Stop,
    Kill,
    Fut(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Trans {
    Stay,
    Started,
    Stopped,
    Destroyed,
}
#[derive(Clone, Debug)]
struct TimerM {
    deadline: u64,
    period: Option<u64>,
    /// earliest advance at which it can expire
    external_cancel: bool,
}
#[derive(Clone, Debug)]
struct FutM {
    node: usize,
    blocking: bool,
    woken: bool,
    polls: u64,
}
#[derive(Clone, Debug)]
enum SupM {
    Started(usize),
    Stopped(usize),
    Killed(usize),
    Faulty(usize),
    Listen(usize, Op, usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum NotM {
    Pending,
    Done,
    Dropped,
}

#[derive(Clone, Debug)]
struct NodeM {
    uuid: Uuid,
    st: St,
    blocking: Option<(u64, Trans)>,
    in_handler: Option<Hk>,
    ctrl: VecDeque<Op>,
    msgs: VecDeque<u64>,
    ports: [VecDeque<u64>; 4],
    timers: BTreeMap<u64, TimerM>,
    expired: Vec<(u64, u64)>, // deadline, key
    cancelled_expired: usize,
    locals: BTreeMap<u64, ()>,
    handled: u64,
    starts: u64,
    kills: u64,
    recov_installed: bool,
    fault: Option<u64>,
    recov_fn_runs: u64,
    recov_action_runs: u64,
    spurious: u64,
    turn: usize,
    /// messages handled in a row while events wait, and the other way around
    event_wait: usize,
    message_wait: usize,
    /// messages, events and timers handled
    served: u64,
    zero_cancelled: usize,
    idle_log: u64,
    cancelled_total: u64,
    /// handler counter the definition itself keeps
    local: u64,
    port_wait: [u64; 4],
}

#[derive(Default, Clone, Debug)]
struct Exec {
    node: Option<usize>,
    st: Option<St>,
    blocked: bool,
    msgs0: usize,
    ports0: [usize; 4],
    timers0: usize,
    ctrl0: usize,
    cancelled0: usize,
    c: usize,
    t: usize,
    m: usize,
    e: usize,
    polls: usize,
    msgs_seen: Vec<u64>,
    blocked_mid: bool,
    /// a port handler failed benignly, which ends the round over the ports
    port_error: bool,
    first_port_at_m: Option<usize>,
}

pub struct Model {
    nodes: Vec<NodeM>,
    by_uuid: HashMap<Uuid, usize>,
    /// conn[kind 0=A,1=B]: (provider, requirer, provider side, requirer side)
    conns: Vec<Conn>,
    futs: HashMap<u64, FutM>,
    sup: VecDeque<SupM>,
    children: Vec<usize>,
    listeners: HashMap<usize, Vec<(Op, usize)>>,
    notif: Vec<NotM>,
    now: u64,
    next: u64,
    budget: i64,
    exec: Exec,
    pub trace: VecDeque<String>,
    pub viol: Vec<(Vec<&'static str>, String, String)>,
    pub obs: BTreeMap<&'static str, u64>,
    handlers: u64,
    executions: u64,
    throughput: usize,
    max_messages: usize,
    poisoned_expect: bool,
    /// some dead component has been deallocated
    released: bool,
    pub strict_batches: bool,
}
#[derive(Clone, Copy, Debug)]
struct Conn {
    kind: u8,
    prov: usize,
    req: usize,
    p2r: bool,
    r2p: bool,
}

struct Gate {
    open: bool,
    wakers: Vec<(u64, Waker)>,
}

type CompArc = Arc<Component<Node>>;

pub struct World {
    pub m: Mutex<Model>,
    gates: Mutex<Vec<Gate>>,
    comps: Mutex<Vec<Option<CompArc>>>,
    refs: Mutex<Vec<ActorRef<Ev>>>,
    strong: Mutex<Vec<Option<ActorRefStrong<Ev>>>>,
    futs: Mutex<Vec<Option<KFuture<()>>>>,
    futs_seen: Mutex<Vec<NotM>>,
    tokens: Arc<std::sync::atomic::AtomicI64>,
    node_tokens: Arc<std::sync::atomic::AtomicI64>,
    sched: DetScheduler,
}

impl Model {
    fn bad(&mut self, tags: &[&'static str], sig: &str, detail: String) {
        if self.viol.len() < 10 {
            self.viol.push((tags.to_vec(), sig.to_string(), detail));
        }
    }
    fn log(&mut self, s: impl FnOnce() -> String) {
        if self.viol.len() < 3 {
            if self.trace.len() >= 1000 {
                self.trace.pop_front();
            }
            let s = s();
            self.trace.push_back(s);
        }
    }
    fn hit(&mut self, k: &'static str) {
        *self.obs.entry(k).or_insert(0) += 1;
    }
    fn id(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn dead(&self, i: usize) -> bool {
        matches!(self.nodes[i].st, St::Dead | St::Faulty)
    }
    /// Checks common to every entry into code of component `i`.
    fn enter(&mut self, i: usize, hk: Hk, current: Option<Uuid>) {
        self.handlers += 1;
        let n = &self.nodes[i];
        let (st, blk, inh, uuid) = (n.st, n.blocking, n.in_handler, n.uuid);
        self.log(|| format!("{}: enter {:?} (st {:?} blk {:?})", i, hk, st, blk));
        if current != Some(uuid) {
            self.bad(&["C03", "C04"], "handler-outside-own-execution", format!("node {} runs {:?} while the scheduler executes {:?}", i, hk, current));
        }
        if inh.is_some() {
            self.bad(&["C03"], "nested-handler", format!("node {} runs {:?} inside {:?}", i, hk, inh));
        }
        if let Some((f, _)) = blk {
            if hk != Hk::Fut(f) {
                self.bad(&["C07"], "handler-while-blocked", format!("node {} runs {:?} while blocked on future {}", i, hk, f));
            }
        }
        match (st, hk) {
            (St::Faulty, _) => self.bad(&["C06", "C05"], "handler-after-fault", format!("node {} runs {:?} after its fault", i, hk)),
            (St::Dead, _) => self.bad(&["C05"], "handler-after-death", format!("node {} runs {:?} after it was killed", i, hk)),
            (St::Dying, Hk::Kill) => (),
            (St::Dying, Hk::Fut(_)) if blk.is_some() => (),
            (St::Dying, _) => self.bad(&["C05"], "handler-while-dying", format!("node {} runs {:?} while it is being killed", i, hk)),
            (St::Passive, Hk::Msg | Hk::Port(_) | Hk::Timer) => {
                self.bad(&["C05"], "handler-while-passive", format!("node {} runs {:?} while not started", i, hk))
            }
            _ => (),
        }
        self.nodes[i].in_handler = Some(hk);
        self.nodes[i].handled += 1;
        self.nodes[i].spurious = 0;
        if matches!(hk, Hk::Msg | Hk::Port(_) | Hk::Timer) {
            self.nodes[i].served += 1;
        }
        match hk {
            Hk::Msg => {
                self.exec.m += 1;
                self.nodes[i].message_wait = 0;
                let bound = 2 * self.throughput + 2;
                // (timers come first)
                let timers = self.exec.t + self.exec.cancelled0 > 0;
                let n = &mut self.nodes[i];
                let waiting = n.ports.iter().map(|p| p.len()).sum::<usize>();
                n.event_wait = if waiting == 0 || timers { 0 } else { n.event_wait + 1 };
                if n.event_wait > bound {
                    n.event_wait = 0;
                    self.bad(&["C11"], "events-starved-by-messages", format!("node {}: {} messages were handled in a row while {} events wait (throughput {})", i, bound + 1, waiting, self.throughput));
                }
            }
            Hk::Port(p) => {
                if self.exec.first_port_at_m.is_none() {
                    self.exec.first_port_at_m = Some(self.exec.m);
                }
                self.exec.e += 1;
                self.nodes[i].event_wait = 0;
                let bound = 2 * self.throughput + 2;
                // (timers come first)
                let timers = self.exec.t + self.exec.cancelled0 > 0;
                let n = &mut self.nodes[i];
                n.message_wait = if n.msgs.is_empty() || timers { 0 } else { n.message_wait + 1 };
                if n.message_wait > bound {
                    n.message_wait = 0;
                    let waiting = n.msgs.len();
                    self.bad(&["C11"], "messages-starved-by-events", format!("node {}: {} events were handled in a row while {} messages wait (throughput {})", i, bound + 1, waiting, self.throughput));
                }
                for q in 0..4u8 {
                    if q == p || self.nodes[i].ports[q as usize].is_empty() {
                        self.nodes[i].port_wait[q as usize] = 0;
                    } else {
                        self.nodes[i].port_wait[q as usize] += 1;
                        if self.nodes[i].port_wait[q as usize] > 12 {
                            self.bad(&["C11"], "port-starved", format!("node {}: port {} waits while {} events of other ports were handled", i, q, 13));
                            self.nodes[i].port_wait[q as usize] = 0;
                        }
                    }
                }
            }
            Hk::Timer => self.exec.t += 1,
            Hk::Start | Hk::Stop | Hk::Kill => self.exec.c += 1,
            Hk::Fut(_) => self.exec.polls += 1,
        }
    }
    fn sup_push(&mut self, s: SupM) {
        self.sup.push_back(s)
    }
    fn kill_node(&mut self, i: usize) {
        self.nodes[i].st = St::Dead;
        self.nodes[i].blocking = None;
        self.sup_push(SupM::Killed(i));
    }
    /// The handler (or future) of node `i` ends with `end`; returns the id of a new blocking future.
    fn exit(&mut self, i: usize, hk: Hk, end: &End, next_fut: Option<u64>) {
        self.log(|| format!("{}: exit {:?} -> {}", i, hk, end_name(end)));
        let trans = match hk {
            Hk::Start => Trans::Started,
            Hk::Stop => Trans::Stopped,
            Hk::Kill => Trans::Destroyed,
            Hk::Fut(f) => match self.nodes[i].blocking {
                Some((bf, t)) if bf == f => t,
                _ => Trans::Stay,
            },
            _ => Trans::Stay,
        };
        let secondary = hk == Hk::Kill && self.nodes[i].kills > 1;
        let _ = secondary;
        self.nodes[i].in_handler = None;
        if matches!(hk, Hk::Port(_)) && matches!(end, End::Benign) {
            self.exec.port_error = true;
        }
        if let Hk::Fut(f) = hk {
            self.futs.remove(&f);
            self.nodes[i].locals.remove(&f);
            if matches!(self.nodes[i].blocking, Some((bf, _)) if bf == f) {
                self.nodes[i].blocking = None;
                self.hit("blocking_futures_completed");
            } else {
                self.hit("local_futures_completed");
            }
        }
        match end {
            End::Ok | End::Benign => match trans {
                Trans::Stay => (),
                Trans::Started => self.sup_push(SupM::Started(i)),
                Trans::Stopped => self.sup_push(SupM::Stopped(i)),
                Trans::Destroyed => self.kill_node(i),
            },
            End::Block(_) => {
                let f = next_fut.unwrap();
                self.exec.blocked_mid = true;
                self.nodes[i].blocking = Some((f, trans));
                self.futs.insert(f, FutM { node: i, blocking: true, woken: true, polls: 0 });
                self.hit("blocks");
            }
            End::Shutdown => {
                if trans == Trans::Destroyed {
                    self.kill_node(i)
                } else {
                    self.nodes[i].st = St::Dying;
                    self.hit("handler_shutdowns");
                }
            }
            End::Unrecoverable => {
                self.kill_node(i);
                self.hit("unrecoverable");
            }
            End::Recoverable | End::Panic => {
                self.nodes[i].st = St::Faulty;
                self.nodes[i].blocking = None;
                self.hit("faults");
                if !self.nodes[i].recov_installed {
                    self.sup_push(SupM::Faulty(i));
                }
            }
        }
    }
    fn process_sup(&mut self) {
        while let Some(s) = self.sup.pop_front() {
            match s {
                SupM::Started(i) => {
                    if !self.children.contains(&i) {
                        self.children.push(i)
                    }
                    self.complete(i, Op::Start);
                }
                SupM::Stopped(i) => self.complete(i, Op::Stop),
                SupM::Killed(i) => {
                    self.children.retain(|x| *x != i);
                    self.complete(i, Op::Kill);
                    self.drop_listeners(i);
                }
                SupM::Faulty(i) => {
                    self.children.retain(|x| *x != i);
                    self.drop_listeners(i)
                }
                SupM::Listen(i, op, f) => self.listeners.entry(i).or_default().push((op, f)),
            }
        }
    }
    fn complete(&mut self, i: usize, op: Op) {
        if let Some(l) = self.listeners.get_mut(&i) {
            let (sel, rest): (Vec<_>, Vec<_>) = l.drain(..).partition(|x| x.0 == op);
            *l = rest;
            for (_, f) in sel {
                self.notif[f] = NotM::Done;
            }
        }
    }
    fn drop_listeners(&mut self, i: usize) {
        if let Some(l) = self.listeners.remove(&i) {
            for (_, f) in l {
                self.notif[f] = NotM::Dropped;
            }
        }
    }
    fn before_exec(&mut self, id: Uuid) {
        self.executions += 1;
        let node = self.by_uuid.get(&id).copied();
        let mut e = Exec { node, ..Exec::default() };
        if let Some(i) = node {
            let n = &self.nodes[i];
            e.st = Some(n.st);
            e.blocked = n.blocking.is_some();
            e.msgs0 = n.msgs.len();
            for p in 0..4 {
                e.ports0[p] = n.ports[p].len();
            }
            e.timers0 = n.expired.len();
            e.ctrl0 = n.ctrl.len();
            e.cancelled0 = n.cancelled_expired;
        }
        self.exec = e;
    }
    fn after_exec(&mut self, dec: Dec) {
        let e = std::mem::take(&mut self.exec);
        let Some(i) = e.node else { return };
        self.hit("executions");
        let n = self.nodes[i].clone();
        let work = e.c + e.t + e.m + e.e + e.polls;
        self.nodes[i].idle_log = if work == 0 { self.nodes[i].idle_log + 1 } else { 0 };
        if self.nodes[i].idle_log < 3 {
            self.log(|| format!("{}: executed c{} t{} m{} e{} f{} -> {:?}", i, e.c, e.t, e.m, e.e, e.polls, dec));
        }
        if n.in_handler.is_some() {
            self.bad(&["C03"], "execution-ended-inside-handler", format!("node {} {:?}", i, n.in_handler));
        }
        if n.st == St::Dying && n.blocking.is_none() {
            self.bad(&["C05"], "kill-hook-missing", format!("node {} asked for shutdown but its kill hook did not run", i));
        }
        if n.st == St::Faulty && n.recov_installed && n.recov_fn_runs != 1 {
            self.bad(&["C06"], "recovery-function-not-run", format!("node {} faulted, recovery function runs: {}", i, n.recov_fn_runs));
        }
        let alive = !matches!(n.st, St::Dead | St::Faulty);
        if alive && n.blocking.is_none() {
            if !e.blocked && !e.blocked_mid && e.ctrl0 > e.c {
                self.bad(&["C05", "C04"], "lifecycle-command-not-handled", format!("node {} was executed but lifecycle commands {:?} remain", i, n.ctrl));
            }
        }
        let total = e.t + e.m + e.e;
        if total > self.throughput.max(2) {
            self.bad(&["C11"], "batch-too-large", format!("node {} handled {} items in one execution with throughput {}", i, total, self.throughput));
        }
        // only judge shares of complete batches
        if self.strict_batches && alive && n.blocking.is_none() && !e.blocked && !e.blocked_mid && !e.port_error && n.st == St::Active {
            let left_m = e.msgs0.saturating_sub(e.m);
            let ports0: usize = e.ports0.iter().sum();
            let left_e = ports0.saturating_sub(e.e);
            let cancelled = e.cancelled0.max(n.cancelled_expired);
            let used = total + cancelled;
            if used < self.throughput && (left_m > 0 || left_e > 0) && e.st == Some(St::Active) {
                self.bad(
                    &["C11"],
                    "share-left-unused",
                    format!("node {} stopped after {} of {} with {} messages and {} events left", i, used, self.throughput, left_m, left_e),
                );
            }
            // events that were pending are served at most a message share late
            if e.st == Some(St::Active) && e.t + cancelled == 0 && e.msgs0 > 0 && ports0 > 0 && self.throughput >= 2 {
                let share = self.max_messages.max(1);
                if left_e > 0 && e.m > share {
                    self.bad(&["C11"], "message-share-exceeded", format!("node {} handled {} messages (share {}) while {} events waited", i, e.m, share, left_e));
                }
                if left_m > 0 && e.m + n.turn < share.min(e.msgs0) {
                    self.bad(&["C11"], "message-share-denied", format!("node {} handled {} messages of share {} with {} waiting", i, e.m, share, left_m));
                }
                self.hit("mixed_batches");
            }
        }
        if total == self.throughput && self.throughput > 1 {
            self.hit("full_batches");
        }
        if e.st == Some(St::Active) && !e.blocked && !e.blocked_mid && n.st == St::Active && n.expired.is_empty() {
            // these many cancelled expiries have at least been taken off the queue
            let gone = self.throughput.saturating_sub(total);
            let left = &mut self.nodes[i].cancelled_expired;
            *left = left.saturating_sub(gone);
        }
        // messages that blocked count towards the same turn as the ones after them
        if n.blocking.is_some() || e.blocked || e.blocked_mid {
            self.nodes[i].turn += e.m;
        } else {
            self.nodes[i].turn = 0;
        }
        if work == 0 {
            let quirk = n.st == St::Passive && (pending(&n) > 0 || n.cancelled_expired > 0);
            if alive && !quirk && !(e.blocked && n.blocking.is_some()) {
                self.nodes[i].spurious += 1;
                self.hit("empty_executions");
                if self.nodes[i].spurious > 60 + n.cancelled_total {
                    self.bad(&["C04", "C08"], "busy-rescheduling", format!("node {} is scheduled again and again with nothing to do (st {:?}, pending {})", i, n.st, pending(&n)));
                }
            }
        }
    }
    /// State of everything when nothing is runnable any more.
    fn check_quiet(&mut self) {
        for i in 0..self.nodes.len() {
            let n = self.nodes[i].clone();
            if matches!(n.st, St::Dead | St::Faulty) {
                continue;
            }
            if let Some((f, _)) = n.blocking {
                if let Some(fm) = self.futs.get(&f) {
                    if fm.woken {
                        let tags: &[&'static str] = &["C07", "C04"];
                        self.bad(tags, "woken-blocking-future-not-polled", format!("node {} blocked on future {} which was woken, but nothing is scheduled", i, f));
                    }
                }
                continue;
            }
            if !n.ctrl.is_empty() {
                self.bad(&["C04", "C05"], "lifecycle-command-stranded", format!("node {} has {:?} queued and nothing is scheduled", i, n.ctrl));
            }
            for f in n.locals.keys() {
                if self.futs.get(f).map(|x| x.woken).unwrap_or(false) {
                    self.bad(&["C07", "C04"], "woken-local-future-not-polled", format!("node {} future {} was woken and is not polled", i, f));
                    break;
                }
            }
            if n.st == St::Active {
                if !n.msgs.is_empty() {
                    self.bad(&["C04", "C01"], "message-stranded", format!("node {} has {} messages queued and nothing is scheduled", i, n.msgs.len()));
                }
                if n.ports.iter().any(|p| !p.is_empty()) {
                    self.bad(&["C04", "C02"], "event-stranded", format!("node {} has events queued {:?} and nothing is scheduled", i, n.ports.iter().map(|p| p.len()).collect::<Vec<_>>()));
                }
                if !n.expired.is_empty() {
                    self.bad(&["C04", "C08"], "timer-stranded", format!("node {} has {} expired timers and nothing is scheduled", i, n.expired.len()));
                }
            }
        }
        self.process_sup();
        for i in 0..self.nodes.len() {
            let n = &self.nodes[i];
            if n.recov_fn_runs != n.recov_action_runs {
                let d = format!("node {}: recovery function ran {} times, its action {} times", i, n.recov_fn_runs, n.recov_action_runs);
                self.bad(&["C06"], "recovery-action-not-run", d);
            }
        }
        self.hit("quiescence_checks");
    }
    fn expire(&mut self, ms: u64) {
        let target = self.now + ms;
        for n in self.nodes.iter_mut() {
            let z = std::mem::take(&mut n.zero_cancelled);
            n.cancelled_expired += z;
            n.cancelled_total += z as u64;
        }
        loop {
            let mut best: Option<(u64, usize, u64)> = None;
            for (i, n) in self.nodes.iter().enumerate() {
                for (k, t) in &n.timers {
                    if t.deadline <= target && best.map(|b| t.deadline < b.0).unwrap_or(true) {
                        best = Some((t.deadline, i, *k));
                    }
                }
            }
            let Some((d, i, k)) = best else { break };
            self.nodes[i].expired.push((d, k));
            let period = self.nodes[i].timers[&k].period;
            match period {
                Some(p) => self.nodes[i].timers.get_mut(&k).unwrap().deadline = d + p,
                None => {
                    self.nodes[i].timers.remove(&k);
                }
            }
        }
        self.now = target;
    }
}
fn pending(n: &NodeM) -> usize {
    n.msgs.len() + n.ports.iter().map(|p| p.len()).sum::<usize>() + n.expired.len()
}
fn end_name(e: &End) -> &'static str {
    match e {
        End::Ok => "ok",
        End::Block(_) => "block",
        End::Shutdown => "shutdown",
        End::Benign => "benign",
        End::Recoverable => "recoverable",
        End::Unrecoverable => "unrecoverable",
        End::Panic => "panic",
    }
}

#[derive(Debug)]
struct ScriptErr(u64);
impl std::fmt::Display for ScriptErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "script error {}", self.0)
    }
}
impl std::error::Error for ScriptErr {}

// ------------------------------------------------------------------ component

struct FnTok(#[allow(dead_code)] Token);

#[derive(ComponentDefinition)]
pub struct Node {
    ctx: ComponentContext<Self>,
    pa: ProvidedPort<PA>,
    pb: ProvidedPort<PB>,
    ra: RequiredPort<PA>,
    rb: RequiredPort<PB>,
    w: Arc<World>,
    idx: usize,
    count: u64,
    handles: Vec<(u64, ScheduledTimer)>,
    fires: HashMap<u64, u32>,
    hooks: [Arc<Cmd>; 3],
    _tok: Token,
}

impl Node {
    fn new(w: &Arc<World>, idx: usize, hooks: [Arc<Cmd>; 3]) -> Node {
        Node {
            ctx: ComponentContext::uninitialised(),
            pa: ProvidedPort::uninitialised(),
            pb: ProvidedPort::uninitialised(),
            ra: RequiredPort::uninitialised(),
            rb: RequiredPort::uninitialised(),
            w: w.clone(),
            idx,
            count: 0,
            handles: Vec::new(),
            fires: HashMap::new(),
            hooks,
            _tok: Token::new(&w.node_tokens),
        }
    }
    fn enter(&mut self, hk: Hk) {
        let cur = *self.w.sched.0.current.lock().unwrap();
        let mut m = self.w.m.lock().unwrap();
        m.enter(self.idx, hk, cur);
        self.count += 1;
        m.nodes[self.idx].local += 1;
        if m.nodes[self.idx].local != self.count {
            let d = format!("node {}: component counted {} handlers, {} ran", self.idx, self.count, m.nodes[self.idx].local);
            m.bad(&["C03"], "component-state-lost", d);
        }
    }
    fn receive(&mut self, ev: Ev) -> HandlerResult {
        self.enter(Hk::Msg);
        {
            let mut m = self.w.m.lock().unwrap();
            let i = self.idx;
            m.hit("messages");
            m.exec.msgs_seen.push(ev.id);
            if ev.body != body_of(ev.id) {
                m.bad(&["C01"], "message-content-changed", format!("node {} message {}", i, ev.id));
            }
            match m.nodes[i].msgs.pop_front() {
                Some(x) if x == ev.id => (),
                x => {
                    let pos = m.nodes[i].msgs.iter().position(|y| *y == ev.id);
                    let mut tags = vec!["C01"];
                    if m.nodes[i].starts > 1 {
                        tags.push("C05");
                    }
                    tags.push("C07");
                    if pos.is_some() {
                        m.bad(&tags, "message-out-of-order-or-lost", format!("node {} got message {} but {:?} is next in its queue", i, ev.id, x));
                    } else {
                        m.bad(&tags, "message-duplicated-or-alien", format!("node {} got message {} which is not queued for it (next {:?})", i, ev.id, x));
                    }
                }
            }
        }
        let c = ev.cmd.clone();
        drop(ev);
        self.run(&c, Hk::Msg)
    }
    fn event(&mut self, port: u8, ev: Ev) -> HandlerResult {
        self.enter(Hk::Port(port));
        {
            let mut m = self.w.m.lock().unwrap();
            let i = self.idx;
            m.hit("events");
            if ev.body != body_of(ev.id) || ev.dir != port {
                m.bad(&["C02"], "event-content-or-port-wrong", format!("node {} event {} dir {} on port {}", i, ev.id, ev.dir, port));
            }
            match m.nodes[i].ports[port as usize].pop_front() {
                Some(x) if x == ev.id => (),
                x => {
                    let pos = m.nodes[i].ports[port as usize].iter().position(|y| *y == ev.id);
                    let sig = if pos.is_some() { "event-out-of-order-or-lost" } else { "event-duplicated-or-alien" };
                    m.bad(&["C02", "C07"], sig, format!("node {} port {} got event {} but {:?} is next in its queue", i, port, ev.id, x));
                }
            }
        }
        let c = ev.cmd.clone();
        drop(ev);
        self.run(&c, Hk::Port(port))
    }
    fn on_timer(&mut self, key: u64, cmd: Arc<Cmd>, fires: Option<u32>) -> HandlerResult {
        self.enter(Hk::Timer);
        {
            let mut m = self.w.m.lock().unwrap();
            let i = self.idx;
            m.hit("timer_firings");
            match m.nodes[i].expired.iter().position(|(_, k)| *k == key) {
                Some(p) => {
                    let (d, _) = m.nodes[i].expired.remove(p);
                    if let Some((d2, k2)) = m.nodes[i].expired.iter().find(|(d2, _)| *d2 < d).copied() {
                        m.bad(&["C08"], "timers-out-of-order", format!("node {}: timer {} (due {}) runs before {} (due {})", i, key, d, k2, d2));
                    }
                }
                None => {
                    let known = m.nodes[i].timers.contains_key(&key);
                    let now = m.now;
                    m.bad(
                        &["C08"],
                        if known { "timer-early-or-extra" } else { "timer-after-cancel-or-twice" },
                        format!("node {}: timer {} runs at {} though no expiry of it is outstanding", i, key, now),
                    );
                }
            }
        }
        if let Some(max) = fires {
            let n = self.fires.entry(key).or_insert(0);
            *n += 1;
            if *n >= max {
                self.cancel_key(key);
            }
        }
        self.run(&cmd, Hk::Timer)
    }
    fn cancel_key(&mut self, key: u64) {
        if let Some(p) = self.handles.iter().position(|(k, _)| *k == key) {
            let (_, h) = self.handles[p].clone();
            {
                let mut m = self.w.m.lock().unwrap();
                let i = self.idx;
                m.log(|| format!("{}: cancel timer {}", i, key));
                m.hit("timer_cancels");
                let now = m.now;
                if let Some(t) = m.nodes[i].timers.remove(&key) {
                    if t.deadline <= now {
                        // fires before its cancellation gets to the timer
                        m.nodes[i].zero_cancelled += 1;
                    }
                }
                let before = m.nodes[i].expired.len();
                m.nodes[i].expired.retain(|(_, k)| *k != key);
                let gone = before - m.nodes[i].expired.len();
                m.nodes[i].cancelled_expired += gone;
                m.nodes[i].cancelled_total += gone as u64;
                if gone > 0 {
                    m.hit("cancelled_after_expiry");
                }
            }
            self.cancel_timer(h);
        }
    }
    fn run(&mut self, cmd: &Arc<Cmd>, hk: Hk) -> HandlerResult {
        self.perform(&cmd.acts);
        self.finish(hk, &cmd.end)
    }
    /// Produces what the handler returns and tells the model first.
    fn finish(&mut self, hk: Hk, end: &End) -> HandlerResult {
        let i = self.idx;
        let w = self.w.clone();
        let mut end = end.clone();
        let (fid, token) = {
            let mut m = w.m.lock().unwrap();
            // the kill hook after `Handled::Shutdown` may not block, and panics are reported apart
            if hk == Hk::Kill && m.nodes[i].st == St::Dying && m.nodes[i].kills == 1000 {
                end = End::Ok;
            }
            let fid = m.id();
            m.exit(i, hk, &end, Some(fid));
            let token = m.id();
            if matches!(end, End::Recoverable | End::Panic) {
                m.nodes[i].fault = Some(token);
            }
            (fid, token)
        };
        match end {
            End::Ok => Handled::OK,
            End::Benign => Err(HandlerError::benign(ScriptErr(token))),
            End::Recoverable => Err(HandlerError::recoverable(ScriptErr(token))),
            End::Unrecoverable => Err(HandlerError::unrecoverable(ScriptErr(token))),
            End::Shutdown => Ok(Handled::Shutdown),
            End::Panic => std::panic::panic_any(Intended(token)),
            End::Block(f) => {
                let s = f.clone();
                Handled::block_on(self, move |acc| Tracked::new(w, i, fid, script_future(acc, fid, s)))
            }
        }
    }
    fn perform(&mut self, acts: &[Act]) {
        for a in acts {
            {
                let mut m = self.w.m.lock().unwrap();
                m.budget -= 1;
                if m.budget < 0 {
                    return;
                }
            }
            match a {
                Act::Tell { dst, via, cmd } => self.w.tell(Some(self.idx), *dst, *via, cmd.clone()),
                Act::Trig { port, cmd } => {
                    let ev = self.w.trig(self.idx, *port, cmd.clone());
                    match port {
                        0 => self.pa.trigger(ev),
                        1 => self.pb.trigger(ev),
                        2 => self.ra.trigger(ev),
                        _ => self.rb.trigger(ev),
                    }
                }
                Act::Once { delay, cmd } => {
                    let key = {
                        let mut m = self.w.m.lock().unwrap();
                        let k = m.id();
                        let i = self.idx;
                        let d = m.now + delay;
                        m.log(|| format!("{}: once {} due {}", i, k, d));
                        m.nodes[i].timers.insert(k, TimerM { deadline: d, period: None, external_cancel: false });
                        k
                    };
                    let c = cmd.clone();
                    let me = self.idx;
                    let h = self.schedule_once(Duration::from_millis(*delay), move |s, h| {
                        s.timer_identity(me, key, &h);
                        s.on_timer(key, c, None)
                    });
                    self.handles.push((key, h));
                }
                Act::Periodic { delay, period, fires, cmd } => {
                    let key = {
                        let mut m = self.w.m.lock().unwrap();
                        let k = m.id();
                        let i = self.idx;
                        let d = m.now + delay;
                        m.log(|| format!("{}: periodic {} due {} every {}", i, k, d, period));
                        m.nodes[i].timers.insert(k, TimerM { deadline: d, period: Some(*period), external_cancel: false });
                        k
                    };
                    let c = cmd.clone();
                    let me = self.idx;
                    let fires = *fires;
                    let h = self.schedule_periodic(Duration::from_millis(*delay), Duration::from_millis(*period), move |s, h| {
                        s.timer_identity(me, key, &h);
                        s.on_timer(key, c.clone(), Some(fires))
                    });
                    self.handles.push((key, h));
                }
                Act::Cancel { pick } => {
                    if !self.handles.is_empty() {
                        // prefer timers that expired but did not run yet
                        let exp: Vec<u64> = self.w.m.lock().unwrap().nodes[self.idx].expired.iter().map(|x| x.1).collect();
                        let key = if !exp.is_empty() && pick % 2 == 0 {
                            exp[*pick as usize % exp.len()]
                        } else {
                            self.handles[*pick as usize % self.handles.len()].0
                        };
                        self.cancel_key(key);
                    }
                }
                Act::Spawn { fut } => {
                    let w = self.w.clone();
                    let i = self.idx;
                    let fid = {
                        let mut m = w.m.lock().unwrap();
                        let fid = m.id();
                        m.futs.insert(fid, FutM { node: i, blocking: false, woken: true, polls: 0 });
                        m.nodes[i].locals.insert(fid, ());
                        m.hit("local_futures");
                        fid
                    };
                    let s = fut.clone();
                    self.spawn_local(move |acc| Tracked::new(w, i, fid, script_future(acc, fid, s)));
                }
                Act::Life { dst, op, notify } => {
                    let c = self.w.comps.lock().unwrap()[*dst].clone();
                    if let Some(c) = c {
                        self.w.life_model(*dst, *op, *notify, || {
                            let s = self.ctx.system();
                            match (op, notify) {
                                (Op::Start, false) => s.start(&c),
                                (Op::Stop, false) => s.stop(&c),
                                (Op::Kill, false) => s.kill(c),
                                (Op::Start, true) => return Some(s.start_notify(&c)),
                                (Op::Stop, true) => return Some(s.stop_notify(&c)),
                                (Op::Kill, true) => return Some(s.kill_notify(c)),
                            }
                            None
                        });
                    }
                }
                Act::Suicide => {
                    {
                        let mut m = self.w.m.lock().unwrap();
                        let i = self.idx;
                        m.nodes[i].ctrl.push_back(Op::Kill);
                        m.log(|| format!("{}: suicide", i));
                    }
                    self.ctx.suicide();
                }
                Act::Open { gate } => self.w.open(*gate),
            }
        }
    }
    fn timer_identity(&self, owner: usize, key: u64, h: &ScheduledTimer) {
        let ok = owner == self.idx && self.handles.iter().any(|(k, x)| *k == key && x == h);
        if !ok {
            self.w.m.lock().unwrap().bad(&["C08"], "timer-wrong-handle", format!("node {} timer {}", self.idx, key));
        }
    }
    fn hook(&mut self, op: Op) -> HandlerResult {
        let hk = match op {
            Op::Start => Hk::Start,
            Op::Stop => Hk::Stop,
            Op::Kill => Hk::Kill,
        };
        self.enter(hk);
        let mut secondary = false;
        {
            let mut m = self.w.m.lock().unwrap();
            let i = self.idx;
            let dying = m.nodes[i].st == St::Dying;
            if dying {
                secondary = true;
                if op != Op::Kill {
                    m.bad(&["C05"], "wrong-hook-on-shutdown", format!("node {} runs {:?}", i, op));
                }
            } else {
                match m.nodes[i].ctrl.pop_front() {
                    Some(o) if o == op => (),
                    o => m.bad(&["C05"], "hook-not-commanded", format!("node {} runs hook {:?} but the next command is {:?}", i, op, o)),
                }
            }
            if op == Op::Kill {
                m.nodes[i].kills += 1;
                if m.nodes[i].kills > 1 {
                    m.bad(&["C05"], "kill-hook-twice", format!("node {}", i));
                }
                m.hit("kill_hooks");
            }
            match op {
                Op::Start => {
                    m.nodes[i].st = St::Active;
                    m.nodes[i].starts += 1;
                    m.hit("start_hooks");
                }
                Op::Stop => {
                    m.nodes[i].st = St::Passive;
                    m.hit("stop_hooks");
                }
                Op::Kill => m.nodes[i].st = St::Dying,
            }
        }
        let cmd = self.hooks[op as usize].clone();
        if secondary {
            self.perform(&cmd.acts);
            let end = match cmd.end {
                End::Block(_) | End::Panic => End::Ok,
                ref e => e.clone(),
            };
            let i = self.idx;
            let mut m = self.w.m.lock().unwrap();
            m.log(|| format!("{}: secondary kill hook", i));
            m.nodes[i].in_handler = None;
            m.kill_node(i);
            drop(m);
            return match end {
                End::Benign => Err(HandlerError::benign(ScriptErr(0))),
                End::Recoverable => Err(HandlerError::recoverable(ScriptErr(0))),
                End::Unrecoverable => Err(HandlerError::unrecoverable(ScriptErr(0))),
                End::Shutdown => Ok(Handled::Shutdown),
                _ => Handled::OK,
            };
        }
        self.run(&cmd, hk)
    }
}

impl ComponentLifecycle for Node {
    fn on_start(&mut self) -> HandlerResult {
        self.hook(Op::Start)
    }
    fn on_stop(&mut self) -> HandlerResult {
        self.hook(Op::Stop)
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.hook(Op::Kill)
    }
}
impl Actor for Node {
    type Message = Ev;
    fn receive_local(&mut self, msg: Ev) -> HandlerResult {
        self.receive(msg)
    }
    fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
impl Provide<PA> for Node {
    fn handle(&mut self, ev: Ev) -> HandlerResult {
        self.event(0, ev)
    }
}
impl Provide<PB> for Node {
    fn handle(&mut self, ev: Ev) -> HandlerResult {
        self.event(1, ev)
    }
}
impl Require<PA> for Node {
    fn handle(&mut self, ev: Ev) -> HandlerResult {
        self.event(2, ev)
    }
}
impl Require<PB> for Node {
    fn handle(&mut self, ev: Ev) -> HandlerResult {
        self.event(3, ev)
    }
}

// ------------------------------------------------------------------ futures

async fn script_future(mut acc: ComponentDefinitionAccess<Node>, fid: u64, s: Arc<FutScript>) -> HandlerResult {
    let w = acc.w.clone();
    acc.perform(&s.first);
    for (wait, acts) in &s.steps {
        WaitFut { w: w.clone(), fid, wait: *wait, polled: false, spin: None }.await;
        acc.perform(acts);
    }
    acc.finish(Hk::Fut(fid), &s.end)
}

struct WaitFut {
    w: Arc<World>,
    fid: u64,
    wait: Wait,
    polled: bool,
    /// handlers served and executions made when the spin began, polls since
    spin: Option<(u64, u64, u64)>,
}
impl Future for WaitFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match self.wait {
            Wait::Yield => {
                if self.polled {
                    return Poll::Ready(());
                }
                self.polled = true;
                self.w.woke(self.fid);
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Wait::Spin => {
                let fid = self.fid;
                let w = self.w.clone();
                let mut m = w.m.lock().unwrap();
                let Some(fm) = m.futs.get(&fid).cloned() else { return Poll::Ready(()) };
                let n = &m.nodes[fm.node];
                let (served, waits) = (n.served, pending(n) > 0);
                let (base, exec, polls) = self.spin.unwrap_or((served, m.executions, 0));
                if fm.blocking || n.st != St::Active || !waits || served != base || polls > 150 {
                    return Poll::Ready(());
                }
                if exec == m.executions && polls > 100 {
                    let d = format!("node {}: future {} was polled {} times in one execution while {} messages and events wait", fm.node, fid, polls, pending(n));
                    m.bad(&["C11", "C07", "C04"], "local-future-starves-component", d);
                }
                let e = m.executions;
                self.spin = Some((base, e, if e == exec { polls + 1 } else { 0 }));
                m.futs.get_mut(&fid).unwrap().woken = true;
                m.hit("spins");
                drop(m);
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Wait::Gate(g) => {
                let mut gs = self.w.gates.lock().unwrap();
                if gs[g].open {
                    return Poll::Ready(());
                }
                let f = self.fid;
                gs[g].wakers.retain(|x| x.0 != f);
                gs[g].wakers.push((f, cx.waker().clone()));
                Poll::Pending
            }
        }
    }
}

struct Tracked<F> {
    w: Arc<World>,
    idx: usize,
    fid: u64,
    inner: Pin<Box<F>>,
    done: bool,
}
impl<F: Future<Output = HandlerResult>> Tracked<F> {
    fn new(w: Arc<World>, idx: usize, fid: u64, f: F) -> Self {
        Tracked { w, idx, fid, inner: Box::pin(f), done: false }
    }
}
impl<F: Future<Output = HandlerResult>> Future for Tracked<F> {
    type Output = HandlerResult;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<HandlerResult> {
        let (idx, fid) = (self.idx, self.fid);
        {
            let cur = *self.w.sched.0.current.lock().unwrap();
            let mut m = self.w.m.lock().unwrap();
            if self.done {
                m.bad(&["C07"], "future-polled-after-completion", format!("node {} future {}", idx, fid));
            }
            m.hit("future_polls");
            m.enter(idx, Hk::Fut(fid), cur);
            match m.futs.get_mut(&fid) {
                Some(f) => {
                    f.woken = false;
                    f.polls += 1;
                    let (node, blocking) = (f.node, f.blocking);
                    if node != idx {
                        m.bad(&["C07"], "future-on-wrong-component", format!("node {} polls future {} of {}", idx, fid, node));
                    }
                    if blocking && m.nodes[idx].blocking.map(|b| b.0) != Some(fid) {
                        m.bad(&["C07"], "blocking-future-polled-unblocked", format!("node {} future {}", idx, fid));
                    }
                }
                None => m.bad(&["C07"], "unknown-future-polled", format!("node {} future {}", idx, fid)),
            }
        }
        match self.inner.as_mut().poll(cx) {
            Poll::Pending => {
                let mut m = self.w.m.lock().unwrap();
                m.nodes[idx].in_handler = None;
                m.log(|| format!("{}: future {} pending", idx, fid));
                Poll::Pending
            }
            Poll::Ready(r) => {
                self.done = true;
                Poll::Ready(r)
            }
        }
    }
}

// ------------------------------------------------------------------ world

impl World {
    fn new(sched: &DetScheduler, throughput: usize, max_messages: usize, gates: usize, budget: i64) -> Arc<World> {
        Arc::new(World {
            m: Mutex::new(Model {
                nodes: vec![],
                by_uuid: HashMap::new(),
                conns: vec![],
                futs: HashMap::new(),
                sup: VecDeque::new(),
                children: vec![],
                listeners: HashMap::new(),
                notif: vec![],
                now: 0,
                next: 0,
                budget,
                exec: Exec::default(),
                trace: VecDeque::new(),
                viol: vec![],
                obs: BTreeMap::new(),
                handlers: 0,
                executions: 0,
                throughput,
                max_messages,
                poisoned_expect: false,
                released: false,
                strict_batches: true,
            }),
            gates: Mutex::new((0..gates).map(|_| Gate { open: false, wakers: vec![] }).collect()),
            comps: Mutex::new(vec![]),
            refs: Mutex::new(vec![]),
            strong: Mutex::new(vec![]),
            futs: Mutex::new(vec![]),
            futs_seen: Mutex::new(vec![]),
            tokens: Default::default(),
            node_tokens: Default::default(),
            sched: sched.clone(),
        })
    }
    fn woke(&self, fid: u64) {
        if let Some(f) = self.m.lock().unwrap().futs.get_mut(&fid) {
            f.woken = true;
        }
    }
    fn open(&self, g: usize) {
        let ws = {
            let mut gs = self.gates.lock().unwrap();
            gs[g].open = true;
            std::mem::take(&mut gs[g].wakers)
        };
        for (f, w) in ws {
            self.woke(f);
            w.wake();
        }
    }
    fn spurious(&self, g: usize) {
        let ws: Vec<_> = self.gates.lock().unwrap()[g].wakers.clone();
        for (f, w) in ws {
            self.woke(f);
            w.wake_by_ref();
        }
    }
    fn mk(&self, id: u64, dir: u8, cmd: Arc<Cmd>) -> Ev {
        Ev { id, dir, body: body_of(id), cmd, tok: Token::new(&self.tokens) }
    }
    fn tell(&self, from: Option<usize>, dst: usize, via: u8, cmd: Arc<Cmd>) {
        let r = self.refs.lock().unwrap()[dst].clone();
        let s = self.strong.lock().unwrap()[dst].clone();
        let id = {
            let mut m = self.m.lock().unwrap();
            let id = m.id();
            if !m.dead(dst) {
                m.nodes[dst].msgs.push_back(id);
            }
            m.log(|| format!("{:?} tells {} message {} via {}", from, dst, id, via));
            m.hit("sends");
            id
        };
        let ev = self.mk(id, 9, cmd);
        match (via, s) {
            (1, Some(s)) => s.tell(ev),
            (2, _) => r.recipient::<Wrapped>().tell(Wrapped(ev)),
            (3, _) => r.recipient_with::<Ev>(|x| x).tell(ev),
            (4, _) => match r.hold() {
                Some(s) => s.tell(ev),
                None => r.tell(ev),
            },
            (5, _) => r.enqueue(MsgEnvelope::Typed(ev)),
            (6, Some(s)) => s.weak_ref().tell(Wrapped(ev)),
            _ => r.tell(ev),
        }
    }
    /// Announces a trigger of node `i` on its port `port` (0/1 provided, 2/3 required).
    fn trig(&self, i: usize, port: u8, cmd: Arc<Cmd>) -> Ev {
        let mut m = self.m.lock().unwrap();
        let id = m.id();
        let kind = port & 1;
        let provided = port < 2;
        let mut n = 0;
        for c in m.conns.clone() {
            if c.kind != kind {
                continue;
            }
            let (dst, p) = if provided && c.prov == i && c.p2r {
                (c.req, 2 + kind)
            } else if !provided && c.req == i && c.r2p {
                (c.prov, kind)
            } else {
                continue;
            };
            n += 1;
            if !m.dead(dst) {
                m.nodes[dst].ports[p as usize].push_back(id);
            }
        }
        m.log(|| format!("{} triggers {} on port {} to {} peers", i, id, port, n));
        m.hit("triggers");
        drop(m);
        self.mk(id, if provided { 2 + kind } else { kind }, cmd)
    }
    fn life_model(&self, dst: usize, op: Op, notify: bool, f: impl FnOnce() -> Option<KFuture<()>>) {
        {
            let mut m = self.m.lock().unwrap();
            m.log(|| format!("lifecycle {:?} on {} notify {}", op, dst, notify));
            if notify {
                let nf = m.notif.len();
                m.notif.push(NotM::Pending);
                m.sup_push(SupM::Listen(dst, op, nf));
                m.hit("notify_futures");
            }
            if !m.dead(dst) {
                m.nodes[dst].ctrl.push_back(op);
            }
        }
        let fut = f();
        if notify {
            self.futs.lock().unwrap().push(fut);
            self.futs_seen.lock().unwrap().push(NotM::Pending);
        }
    }
    fn poll_notifs(&self) {
        struct N;
        impl ArcWake for N {
            fn wake_by_ref(_: &Arc<Self>) {}
        }
        let wk = waker(Arc::new(N));
        let mut cx = Context::from_waker(&wk);
        let mut fs = self.futs.lock().unwrap();
        let mut seen = self.futs_seen.lock().unwrap();
        for (i, f) in fs.iter_mut().enumerate() {
            if let Some(k) = f.as_mut() {
                match Pin::new(k).poll(&mut cx) {
                    Poll::Ready(Ok(())) => {
                        seen[i] = NotM::Done;
                        *f = None
                    }
                    Poll::Ready(Err(_)) => {
                        seen[i] = NotM::Dropped;
                        *f = None
                    }
                    Poll::Pending => (),
                }
            }
        }
        let mut m = self.m.lock().unwrap();
        for i in 0..seen.len() {
            let want = m.notif[i];
            let got = seen[i];
            if want == got {
                continue;
            }
            let sig = match (want, got) {
                (NotM::Done, _) => "notify-future-not-completed",
                (_, NotM::Done) => "notify-future-completed-early",
                _ => "notify-future-state",
            };
            m.bad(&["C05"], sig, format!("notification {} expected {:?}, is {:?}", i, want, got));
        }
    }
    fn add_node(self: &Arc<Self>, sys: &impl SystemHandle, hooks: [Arc<Cmd>; 3], recov: Option<RecPlan>) -> usize {
        let idx = self.comps.lock().unwrap().len();
        let w = self.clone();
        let comp = sys.create(move || Node::new(&w, idx, hooks));
        if let Some(p) = recov.clone() {
            let w = self.clone();
            comp.set_recovery_function(move |ctx| recover(w, idx, ctx, p));
        }
        let uuid = comp.id();
        {
            let mut m = self.m.lock().unwrap();
            m.nodes.push(NodeM {
                uuid,
                st: St::Passive,
                blocking: None,
                in_handler: None,
                ctrl: VecDeque::new(),
                msgs: VecDeque::new(),
                ports: Default::default(),
                timers: BTreeMap::new(),
                expired: vec![],
                cancelled_expired: 0,
                locals: BTreeMap::new(),
                handled: 0,
                starts: 0,
                kills: 0,
                recov_installed: recov.is_some(),
                fault: None,
                recov_fn_runs: 0,
                recov_action_runs: 0,
                spurious: 0,
                turn: 0,
                event_wait: 0,
                message_wait: 0,
                served: 0,
                zero_cancelled: 0,
                idle_log: 0,
                cancelled_total: 0,
                local: 0,
                port_wait: [0; 4],
            });
            m.by_uuid.insert(uuid, idx);
            m.hit("components");
        }
        self.refs.lock().unwrap().push(comp.actor_ref());
        self.strong.lock().unwrap().push(comp.actor_ref().hold());
        self.comps.lock().unwrap().push(Some(comp));
        idx
    }
}

#[derive(Clone)]
pub struct RecPlan {
    replace: bool,
    hooks: [Arc<Cmd>; 3],
}

fn recover(w: Arc<World>, idx: usize, ctx: FaultContext, plan: RecPlan) -> RecoveryHandler {
    {
        let mut m = w.m.lock().unwrap();
        m.nodes[idx].recov_fn_runs += 1;
        m.hit("recovery_functions");
        let runs = m.nodes[idx].recov_fn_runs;
        if runs > 1 {
            m.bad(&["C06"], "recovery-function-twice", format!("node {}", idx));
        }
        if m.nodes[idx].st != St::Faulty {
            m.bad(&["C06"], "recovery-without-fault", format!("node {}", idx));
        }
        if ctx.component_id != m.nodes[idx].uuid {
            m.bad(&["C06"], "recovery-wrong-component", format!("node {}", idx));
        }
        let got = match &ctx.fault {
            Fault::Panic(p) => p.downcast_ref::<Intended>().map(|i| i.0),
            Fault::Handler(f) => f.as_error().to_string().strip_prefix("script error ").and_then(|s| s.parse().ok()),
        };
        if got != m.nodes[idx].fault {
            let want = m.nodes[idx].fault;
            m.bad(&["C06"], "recovery-wrong-fault", format!("node {}: context carries {:?}, fault was {:?}", idx, got, want));
        }
        m.sup_push(SupM::Faulty(idx));
    }
    if !plan.replace && idx % 3 == 0 {
        w.m.lock().unwrap().nodes[idx].recov_action_runs += 1;
        return ctx.ignore();
    }
    ctx.recover_with(move |ctx, sys, _log| {
        {
            let mut m = w.m.lock().unwrap();
            m.nodes[idx].recov_action_runs += 1;
            m.hit("recovery_actions");
            if m.nodes[idx].recov_action_runs > 1 {
                m.bad(&["C06"], "recovery-action-twice", format!("node {}", idx));
            }
            if ctx.component_id != m.nodes[idx].uuid {
                m.bad(&["C06"], "recovery-wrong-component", format!("node {}", idx));
            }
        }
        if plan.replace {
            let n = w.add_node(&sys, plan.hooks.clone(), None);
            let c = w.comps.lock().unwrap()[n].clone().unwrap();
            w.life_model(n, Op::Start, false, || {
                sys.start(&c);
                None
            });
            let ok = Arc::new(Cmd { acts: vec![], end: End::Ok });
            w.tell(None, n, 0, ok);
        }
    })
}

// ------------------------------------------------------------------ generation

#[derive(Clone, Debug)]
pub struct Prof {
    pub tell: u32,
    pub trig: u32,
    pub timer: u32,
    pub cancel: u32,
    pub spawn: u32,
    pub life: u32,
    pub open: u32,
    pub block: u32,
    pub fault: u32,
    pub shutdown: u32,
    pub connect: u32,
    pub flood: u32,
    pub small_batches: bool,
}
impl Prof {
    pub fn of(p: &str) -> Prof {
        let base = Prof { tell: 10, trig: 8, timer: 4, cancel: 3, spawn: 3, life: 3, open: 4, block: 4, fault: 2, shutdown: 1, connect: 3, flood: 2, small_batches: true };
        match p {
            "C01" => Prof { tell: 20, life: 2, flood: 4, fault: 1, ..base },
            "C02" => Prof { trig: 24, connect: 8, life: 2, fault: 1, ..base },
            "C03" => Prof { spawn: 6, block: 6, ..base },
            "C04" => Prof { ..base },
            "C05" => Prof { life: 12, shutdown: 3, block: 6, ..base },
            "C06" => Prof { fault: 8, shutdown: 2, ..base },
            "C07" => Prof { block: 14, spawn: 10, open: 8, fault: 2, ..base },
            "C08" => Prof { timer: 16, cancel: 10, life: 2, fault: 1, ..base },
            "C11" => Prof { flood: 10, life: 0, fault: 0, shutdown: 0, block: 0, spawn: 1, ..base },
            _ => base,
        }
    }
}

struct Gen {
    p: Prof,
    nodes: usize,
    gates: usize,
}
impl Gen {
    fn acts(&self, r: &mut Rng, depth: u32, max: usize) -> Vec<Act> {
        if depth == 0 {
            return vec![];
        }
        let n = r.below(max + 1);
        (0..n).map(|_| self.act(r, depth)).collect()
    }
    fn act(&self, r: &mut Rng, depth: u32) -> Act {
        let p = &self.p;
        let d = depth - 1;
        match r.weighted(&[p.tell, p.trig, p.timer, p.timer / 2, p.cancel, p.spawn, p.life, p.open, p.shutdown]) {
            0 => Act::Tell { dst: r.below(self.nodes), via: r.below(7) as u8, cmd: self.cmd(r, d) },
            1 => Act::Trig { port: r.below(4) as u8, cmd: self.cmd(r, d) },
            2 => Act::Once { delay: self.delay(r), cmd: self.cmd(r, d) },
            3 => Act::Periodic { delay: self.delay(r), period: 1 + r.below(12) as u64, fires: 1 + r.below(if cfg!(miri) { 2 } else { 5 }) as u32, cmd: self.cmd(r, d.min(1)) },
            4 => Act::Cancel { pick: r.next() as u32 },
            5 => Act::Spawn { fut: self.fut(r, d) },
            6 => Act::Life { dst: r.below(self.nodes), op: self.op(r), notify: r.chance(1, 2) },
            7 => Act::Open { gate: r.below(self.gates) },
            _ => Act::Suicide,
        }
    }
    fn op(&self, r: &mut Rng) -> Op {
        [Op::Start, Op::Stop, Op::Kill][r.weighted(&[6, 4, 1])]
    }
    fn delay(&self, r: &mut Rng) -> u64 {
        if cfg!(miri) {
            return r.below(4) as u64;
        }
        match r.below(10) {
            0 => 0,
            1..=6 => r.range(1, 12) as u64,
            7 | 8 => r.range(10, 100) as u64,
            _ => *r.pick(&[255u64, 256, 257, 300, 512, 600]),
        }
    }
    fn end(&self, r: &mut Rng, depth: u32) -> End {
        let p = &self.p;
        match r.weighted(&[90, p.block, p.shutdown, 2, p.fault / 2, p.fault / 3, p.fault / 2 + p.fault % 2]) {
            0 => End::Ok,
            1 if depth > 0 => End::Block(self.fut(r, depth - 1)),
            1 => End::Ok,
            2 => End::Shutdown,
            3 => End::Benign,
            4 => End::Recoverable,
            5 => End::Unrecoverable,
            _ => End::Panic,
        }
    }
    fn cmd(&self, r: &mut Rng, depth: u32) -> Arc<Cmd> {
        Arc::new(Cmd { acts: self.acts(r, depth, 3), end: self.end(r, depth) })
    }
    fn fut(&self, r: &mut Rng, depth: u32) -> Arc<FutScript> {
        let n = r.below(4);
        Arc::new(FutScript {
            first: self.acts(r, depth, 2),
            steps: (0..n)
                .map(|_| (match r.below(9) { 0..=2 => Wait::Yield, 3 => Wait::Spin, _ => Wait::Gate(r.below(self.gates)) }, self.acts(r, depth, 2)))
                .collect(),
            end: self.end(r, depth),
        })
    }
    fn hooks(&self, r: &mut Rng) -> [Arc<Cmd>; 3] {
        let mut mk = |r: &mut Rng| if r.chance(1, 3) { self.cmd(r, 2) } else { Arc::new(Cmd { acts: vec![], end: End::Ok }) };
        [mk(r), mk(r), mk(r)]
    }
}

pub struct Ctx {
    pub sys: DetSys,
    pub throughput: usize,
    pub prio: f32,
    pub uses: u32,
}
impl Ctx {
    pub fn new(prop: &str, r: &mut Rng) -> Ctx {
        let throughput = *r.pick(&[2usize, 3, 4, 5, 7, 10, 16, 50]);
        let prio = *r.pick(&[0.5f32, 0.5, 0.1, 0.3, 0.7, 0.9]);
        let policy = *r.pick(&[Policy::Random, Policy::Random, Policy::Random, Policy::Fifo, Policy::Lifo]);
        let _ = prop;
        let sys = DetSys::build(policy, r, |c| {
            c.throughput(throughput);
            c.msg_priority(prio);
        });
        Ctx { sys, throughput, prio, uses: 0 }
    }
}
impl Drop for Ctx {
    fn drop(&mut self) {
        *self.sys.sched.0.before.lock().unwrap() = None;
    }
}

enum Settle {
    Quiet,
    Busy,
}

fn settle(w: &Arc<World>, c: &mut Ctx, r: &mut Rng, max: u64) -> Settle {
    let mut idle_steps = 0u64;
    let mut last = w.m.lock().unwrap().handlers;
    for _ in 0..max {
        // idle rounds go to everyone, so that nobody hides behind a passive component
        let policy = c.sys.policy;
        if idle_steps > 10 {
            c.sys.policy = Policy::Random;
        }
        let s = step(w, c, r);
        c.sys.policy = policy;
        match s {
            Step::Idle => return Settle::Quiet,
            _ => {
                let m = w.m.lock().unwrap();
                if !m.viol.is_empty() {
                    return Settle::Quiet;
                }
                if m.handlers != last {
                    last = m.handlers;
                    idle_steps = 0;
                } else {
                    idle_steps += 1;
                    if idle_steps > 30 {
                        // passive components with retained messages stay in the run queue
                        let waiting = c.sys.sched.waiting();
                        let quirk = waiting.iter().all(|id| match id {
                            Some(id) => match m.by_uuid.get(id) {
                                Some(i) => m.nodes[*i].st == St::Passive && m.nodes[*i].blocking.is_none() && m.nodes[*i].ctrl.is_empty() && pending(&m.nodes[*i]) + m.nodes[*i].cancelled_expired > 0
                                    && !m.nodes[*i].locals.keys().any(|f| m.futs.get(f).map(|x| x.woken).unwrap_or(false)),
                                None => false,
                            },
                            None => false,
                        });
                        if quirk && idle_steps > 3 * waiting.len() as u64 + 30 {
                            return Settle::Quiet;
                        }
                    }
                }
            }
        }
    }
    Settle::Busy
}

fn step(w: &Arc<World>, c: &mut Ctx, r: &mut Rng) -> Step {
    let s = c.sys.step(r);
    if let Step::Exec(_, dec) = s {
        w.m.lock().unwrap().after_exec(dec);
    }
    s
}

fn sys_life(w: &Arc<World>, sys: &KompactSystem, dst: usize, op: Op, notify: bool) {
    let c = w.comps.lock().unwrap()[dst].clone();
    if let Some(c) = c {
        w.life_model(dst, op, notify, || match (op, notify) {
            (Op::Start, false) => {
                sys.start(&c);
                None
            }
            (Op::Stop, false) => {
                sys.stop(&c);
                None
            }
            (Op::Kill, false) => {
                sys.kill(c);
                None
            }
            (Op::Start, true) => Some(sys.start_notify(&c)),
            (Op::Stop, true) => Some(sys.stop_notify(&c)),
            (Op::Kill, true) => Some(sys.kill_notify(c)),
        });
    }
}

struct ChanRec {
    conn: usize,
    chan: Box<dyn Channel + Send>,
    p2r: bool,
    r2p: bool,
}

pub struct CaseOut {
    pub viol: Vec<(Vec<&'static str>, String, String)>,
    pub obs: BTreeMap<&'static str, u64>,
    pub sig: u64,
    pub handlers: u64,
    pub trace: VecDeque<String>,
    pub reuse: bool,
    pub inconclusive: Option<String>,
}

pub fn case(c: &mut Ctx, prop: &str, seed: u64) -> CaseOut {
    let mut r = Rng::new(seed);
    let prof = Prof::of(prop);
    let nn = if cfg!(miri) { r.range(2, 3) } else { r.range(2, 6) };
    let g = Gen { p: prof.clone(), nodes: nn, gates: 5 };
    let max_messages = c.sys.system.max_messages();
    let w = World::new(&c.sys.sched, c.throughput, max_messages, g.gates, 600);
    {
        let w2 = Arc::downgrade(&w);
        *c.sys.sched.0.before.lock().unwrap() = Some(Box::new(move |id| {
            if let Some(w) = w2.upgrade() {
                w.m.lock().unwrap().before_exec(id)
            }
        }));
    }
    w.m.lock().unwrap().now = c.sys.now_ms;
    for _ in 0..nn {
        let hooks = g.hooks(&mut r);
        let rec = if r.chance(3, 4) { Some(RecPlan { replace: r.chance(1, 2), hooks: g.hooks(&mut r) }) } else { None };
        w.add_node(&c.sys.system, hooks, rec);
    }
    let mut chans: Vec<ChanRec> = vec![];
    let mut inconclusive = None;
    let ops = if cfg!(miri) { r.range(6, 14) } else { r.range(15, 90) };
    // most components start early
    for i in 0..nn {
        if r.chance(4, 5) {
            sys_life(&w, &c.sys.system, i, Op::Start, r.chance(1, 2));
        }
    }
    for _ in 0..r.below(2 * nn) {
        connect(&w, c, &mut r, nn, &mut chans);
    }
    for _ in 0..ops {
        if !w.m.lock().unwrap().viol.is_empty() {
            break;
        }
        let total = w.comps.lock().unwrap().len();
        match r.weighted(&[prof.tell * 2, prof.trig, prof.life, prof.open, 3, prof.connect, prof.connect / 2, 30, 8, 8, prof.flood, prof.cancel / 3, prof.connect / 3 + 2]) {
            0 => {
                let dst = r.below(total);
                let cmd = g.cmd(&mut r, 3);
                let via = r.below(7) as u8;
                w.tell(None, dst, via, cmd);
            }
            1 => trigger_outside(&w, c, &mut r, total, &g),
            2 => {
                let dst = r.below(total);
                let op = g.op(&mut r);
                sys_life(&w, &c.sys.system, dst, op, r.chance(1, 2));
            }
            3 => w.open(r.below(g.gates)),
            4 => w.spurious(r.below(g.gates)),
            5 => connect(&w, c, &mut r, total, &mut chans),
            6 => disconnect(&w, c, &mut r, &mut chans),
            7 => {
                for _ in 0..r.range(1, 12) {
                    if step(&w, c, &mut r) == Step::Idle {
                        break;
                    }
                }
            }
            8 => {
                let ms = match if cfg!(miri) { 0 } else { r.below(6) } {
                    0 if cfg!(miri) => r.below(5) as u64,
                    0 => 0,
                    1..=3 => r.range(1, 15) as u64,
                    4 => r.range(10, 120) as u64,
                    _ => *r.pick(&[256u64, 300, 700]),
                };
                advance(&w, c, ms);
            }
            9 => {
                if let Settle::Busy = settle(&w, c, &mut r, 20_000) {
                    inconclusive = Some("still busy after 20000 steps".to_string());
                    break;
                }
                quiet(&w);
            }
            10 => {
                // flood one component with messages and events
                let dst = r.below(total);
                let k = if cfg!(miri) { r.range(2, 8) } else { r.range(5, 60) };
                let end = match r.below(5) {
                    0 => End::Benign,
                    1 => End::Block(g.fut(&mut r, 0)),
                    _ => End::Ok,
                };
                let cmd = Arc::new(Cmd { acts: vec![], end });
                let ok = Arc::new(Cmd { acts: vec![], end: End::Ok });
                let dull = r.chance(1, 2);
                for _ in 0..k {
                    let c2 = if dull || r.chance(1, 3) { cmd.clone() } else { ok.clone() };
                    if r.chance(1, 2) {
                        w.tell(None, dst, 0, c2);
                    } else {
                        trig_direct(&w, c, &mut r, dst, c2);
                    }
                }
            }
            11 => external_cancel(&w, c, &mut r, total),
            _ => {
                // a dead component is deallocated while its peers stay connected to it
                let dst = r.below(total);
                if !matches!(w.m.lock().unwrap().nodes[dst].st, St::Dead | St::Faulty) {
                    continue;
                }
                if let Settle::Busy = settle(&w, c, &mut r, 20_000) {
                    inconclusive = Some("still busy after 20000 steps".to_string());
                    break;
                }
                release(&w, c, dst);
            }
        }
        if c.sys.sched.0.poisoned.load(std::sync::atomic::Ordering::SeqCst) {
            w.m.lock().unwrap().bad(&["C06"], "system-poisoned", "a fault of a supervised component poisoned the system".into());
            break;
        }
    }
    // wind down: everything is started, all gates open, then nothing may be left over
    let clean = w.m.lock().unwrap().viol.is_empty();
    let mut trace_hash = 0u64;
    let mut reuse = false;
    if clean && inconclusive.is_none() {
        for round in 0..8 {
            for gt in 0..g.gates {
                w.open(gt);
            }
            if let Settle::Busy = settle(&w, c, &mut r, 50_000) {
                inconclusive = Some("still busy after 50000 steps".to_string());
                break;
            }
            quiet(&w);
            if !w.m.lock().unwrap().viol.is_empty() {
                break;
            }
            let total = w.comps.lock().unwrap().len();
            for i in 0..total {
                let st = w.m.lock().unwrap().nodes[i].st;
                if st == St::Passive {
                    sys_life(&w, &c.sys.system, i, Op::Start, true);
                }
            }
            advance(&w, c, if cfg!(miri) { 10 } else if round < 3 { 700 } else { 50 });
        }
        if let (Settle::Quiet, true) = (settle(&w, c, &mut r, 50_000), inconclusive.is_none()) {
            quiet(&w);
        }
    }
    let mut m = w.m.lock().unwrap();
    for t in &m.trace {
        trace_hash = mix(trace_hash, hash_bytes(t.as_bytes()));
    }
    let mut viol = std::mem::take(&mut m.viol);
    let obs = std::mem::take(&mut m.obs);
    let trace = std::mem::take(&mut m.trace);
    let handlers = m.handlers;
    drop(m);
    if viol.is_empty() && inconclusive.is_none() {
        // release: kill all, drop all handles, then everything must be gone
        let total = w.comps.lock().unwrap().len();
        for i in 0..total {
            let dead = w.m.lock().unwrap().dead(i);
            if !dead {
                sys_life(&w, &c.sys.system, i, Op::Kill, true);
            }
        }
        for gt in 0..g.gates {
            w.open(gt);
        }
        let q = settle(&w, c, &mut r, 50_000);
        quiet(&w);
        for cr in chans.drain(..) {
            drop(cr);
        }
        w.comps.lock().unwrap().clear();
        w.strong.lock().unwrap().clear();
        let mut m = w.m.lock().unwrap();
        viol = std::mem::take(&mut m.viol);
        let alive: Vec<usize> = (0..m.nodes.len()).filter(|i| !m.dead(*i)).collect();
        drop(m);
        if let (Settle::Quiet, true, true) = (q, viol.is_empty(), alive.is_empty()) {
            reuse = true;
            // queued executions of dead components may still hold them
            c.sys.settle(&mut r, 1000);
            c.sys.advance(0);
            let nt = w.node_tokens.load(std::sync::atomic::Ordering::SeqCst);
            let mt = w.tokens.load(std::sync::atomic::Ordering::SeqCst);
            if nt != 0 {
                viol.push((vec!["C13"], "component-not-released".into(), format!("{} component states are alive after kill and release of all handles", nt)));
            } else if mt != 0 {
                viol.push((vec!["C13"], "message-not-released".into(), format!("{} undelivered messages or events were not dropped", mt)));
            }
        }
    }
    *c.sys.sched.0.before.lock().unwrap() = None;
    CaseOut { viol, obs, sig: trace_hash, handlers, trace, reuse, inconclusive }
}

fn quiet(w: &Arc<World>) {
    if !w.m.lock().unwrap().viol.is_empty() {
        return;
    }
    w.m.lock().unwrap().check_quiet();
    w.poll_notifs();
}

fn advance(w: &Arc<World>, c: &mut Ctx, ms: u64) {
    {
        let mut m = w.m.lock().unwrap();
        m.log(|| format!("advance {}", ms));
        m.expire(ms);
    }
    c.sys.advance(ms);
}

/// Drops the harness' handles on a dead component: nothing else may keep it alive at quiescence.
fn release(w: &Arc<World>, c: &mut Ctx, dst: usize) {
    let Some(comp) = w.comps.lock().unwrap()[dst].take() else { return };
    let weak = Arc::downgrade(&comp);
    drop(comp);
    w.strong.lock().unwrap()[dst] = None;
    advance(w, c, 0);
    let mut m = w.m.lock().unwrap();
    m.released = true;
    m.log(|| format!("release {}", dst));
    m.hit("components_released_early");
    if weak.strong_count() > 0 {
        let st = m.nodes[dst].st;
        m.bad(&["C13"], "dead-component-not-released", format!("node {} ({:?}) is still held {} times at quiescence", dst, st, weak.strong_count()));
    }
}

fn lockable(w: &Arc<World>, i: usize) -> bool {
    // a panicked component's definition cannot be locked any more
    w.m.lock().unwrap().nodes[i].st != St::Faulty
}

fn connect(w: &Arc<World>, c: &Ctx, r: &mut Rng, total: usize, chans: &mut Vec<ChanRec>) {
    let (a, b) = (r.below(total), r.below(total));
    let kind = r.below(2) as u8;
    if a == b || !lockable(w, a) || !lockable(w, b) {
        return;
    }
    let _ = c;
    let comps = w.comps.lock().unwrap();
    let (Some(ca), Some(cb)) = (comps[a].clone(), comps[b].clone()) else { return };
    drop(comps);
    if w.m.lock().unwrap().conns.iter().any(|x| x.prov == a && x.req == b && x.kind == kind && (x.p2r || x.r2p)) {
        return;
    }
    // 0: two-way channel, 1: provider side only, 2: requirer side only, 3: ports by hand
    let mode = r.weighted(&[6, 1, 1, 1]);
    let (p2r, r2p) = match mode {
        1 => (true, false),
        2 => (false, true),
        _ => (true, true),
    };
    let chan: Option<Box<dyn Channel + Send>> = match (mode, kind) {
        (0, 0) => biconnect_components::<PA, _, _>(&ca, &cb).ok().map(|x| x.boxed()),
        (0, _) => biconnect_components::<PB, _, _>(&ca, &cb).ok().map(|x| x.boxed()),
        (1, 0) => {
            let rr: RequiredRef<PA> = cb.required_ref();
            Some(ca.connect_to_required(rr).boxed())
        }
        (1, _) => {
            let rr: RequiredRef<PB> = cb.required_ref();
            Some(ca.connect_to_required(rr).boxed())
        }
        (2, 0) => {
            let pr: ProvidedRef<PA> = ca.provided_ref();
            Some(cb.connect_to_provided(pr).boxed())
        }
        (2, _) => {
            let pr: ProvidedRef<PB> = ca.provided_ref();
            Some(cb.connect_to_provided(pr).boxed())
        }
        (_, 0) => {
            on_dual_definition(&ca, &cb, |x, y| biconnect_ports(&mut x.pa, &mut y.ra)).expect("lock");
            None
        }
        _ => {
            on_dual_definition(&ca, &cb, |x, y| biconnect_ports(&mut x.pb, &mut y.rb)).expect("lock");
            None
        }
    };
    let mut m = w.m.lock().unwrap();
    m.log(|| format!("connect {}: {} -> {} mode {}", kind, a, b, mode));
    m.hit("connects");
    m.conns.push(Conn { kind, prov: a, req: b, p2r, r2p });
    let conn = m.conns.len() - 1;
    drop(m);
    if let Some(chan) = chan {
        chans.push(ChanRec { conn, chan, p2r, r2p });
    }
}

fn disconnect(w: &Arc<World>, _c: &Ctx, r: &mut Rng, chans: &mut Vec<ChanRec>) {
    if chans.is_empty() {
        return;
    }
    let k = r.below(chans.len());
    let conn = w.m.lock().unwrap().conns[chans[k].conn];
    if !lockable(w, conn.prov) || !lockable(w, conn.req) {
        return;
    }
    // sometimes cut the port itself, from either end, instead of the channel
    let how = r.below(6);
    let comps = w.comps.lock().unwrap();
    let (cp, cr) = (comps[conn.prov].clone(), comps[conn.req].clone());
    drop(comps);
    let (Some(cp), Some(cr)) = (cp, cr) else { return };
    let rec = chans.remove(k);
    let mut cut = (rec.p2r, rec.r2p);
    match how {
        0 => {
            // provider forgets the requirer only
            let id = if conn.kind == 0 {
                let rr: RequiredRef<PA> = cr.required_ref();
                cp.on_definition(|d| d.pa.disconnect_port(rr))
            } else {
                let rr: RequiredRef<PB> = cr.required_ref();
                cp.on_definition(|d| d.pb.disconnect_port(rr))
            };
            if id != conn.p2r {
                w.m.lock().unwrap().bad(&["C02"], "disconnect-port-result", format!("disconnect_port returned {} expected {}", id, conn.p2r));
            }
            cut = (true, false);
        }
        1 => {
            let id = if conn.kind == 0 {
                cr.on_definition(|d| d.ra.disconnect_component(cp.as_ref()))
            } else {
                cr.on_definition(|d| d.rb.disconnect_component(cp.as_ref()))
            };
            // (channels to deallocated components count, too, and may or may not be cleaned up)
            if id != conn.r2p && !w.m.lock().unwrap().released {
                w.m.lock().unwrap().bad(&["C02"], "disconnect-component-result", format!("disconnect_component returned {} expected {}", id, conn.r2p));
            }
            cut = (false, true);
        }
        _ => {
            if let Err(e) = rec.chan.disconnect_by_ref() {
                w.m.lock().unwrap().bad(&["C02"], "disconnect-failed", format!("disconnecting an idle channel failed: {:?}", e));
            }
        }
    }
    let mut m = w.m.lock().unwrap();
    m.log(|| format!("disconnect {:?} how {} cut {:?}", conn, how, cut));
    m.hit("disconnects");
    if cut.0 {
        m.conns[rec.conn].p2r = false;
    }
    if cut.1 {
        m.conns[rec.conn].r2p = false;
    }
}

/// system.trigger_i / trigger_r on a port of `dst`
fn trig_direct(w: &Arc<World>, c: &Ctx, r: &mut Rng, dst: usize, cmd: Arc<Cmd>) {
    if !lockable(w, dst) {
        return;
    }
    let Some(comp) = w.comps.lock().unwrap()[dst].clone() else { return };
    let port = r.below(4) as u8;
    let id = {
        let mut m = w.m.lock().unwrap();
        let id = m.id();
        if !m.dead(dst) {
            m.nodes[dst].ports[port as usize].push_back(id);
        }
        m.hit("outside_triggers");
        m.log(|| format!("outside triggers {} at {} port {}", id, dst, port));
        id
    };
    let ev = w.mk(id, port, cmd);
    match port {
        0 => {
            let p: ProvidedRef<PA> = comp.provided_ref();
            c.sys.system.trigger_r(ev, &p)
        }
        1 => {
            let p: ProvidedRef<PB> = comp.provided_ref();
            c.sys.system.trigger_r(ev, &p)
        }
        2 => {
            let p: RequiredRef<PA> = comp.required_ref();
            c.sys.system.trigger_i(ev, &p)
        }
        _ => {
            let p: RequiredRef<PB> = comp.required_ref();
            c.sys.system.trigger_i(ev, &p)
        }
    }
}

fn trigger_outside(w: &Arc<World>, c: &Ctx, r: &mut Rng, total: usize, g: &Gen) {
    let dst = r.below(total);
    if !lockable(w, dst) {
        return;
    }
    let cmd = g.cmd(r, 3);
    if r.chance(1, 2) {
        return trig_direct(w, c, r, dst, cmd);
    }
    // trigger on the component's own port from outside a handler
    let Some(comp) = w.comps.lock().unwrap()[dst].clone() else { return };
    let port = r.below(4) as u8;
    let ev = w.trig(dst, port, cmd);
    comp.on_definition(|d| match port {
        0 => d.pa.trigger(ev),
        1 => d.pb.trigger(ev),
        2 => d.ra.trigger(ev),
        _ => d.rb.trigger(ev),
    });
}

fn external_cancel(w: &Arc<World>, c: &Ctx, r: &mut Rng, total: usize) {
    let dst = r.below(total);
    if !lockable(w, dst) {
        return;
    }
    let Some(comp) = w.comps.lock().unwrap()[dst].clone() else { return };
    let h = comp.on_definition(|d| if d.handles.is_empty() { None } else { Some(d.handles[r.below(d.handles.len())].clone()) });
    if let Some((key, h)) = h {
        CanCancelTimers::cancel_timer(&c.sys.system, h);
        let mut m = w.m.lock().unwrap();
        m.log(|| format!("outside cancels timer {} of {}", key, dst));
        m.hit("external_cancels");
        // a timer without any delay left fires before the cancellation gets to it
        let now = m.now;
        if let Some(t) = m.nodes[dst].timers.get_mut(&key) {
            if t.deadline > now {
                m.nodes[dst].timers.remove(&key);
            } else {
                t.period = None;
            }
        }
    }
}

pub fn run(prop: &'static str, rep: &Arc<Report>, until: f64) {
    let threads = if rep.only_case.is_some() { 1 } else { 8 };
    thread_local! {
        static CTX: std::cell::RefCell<Option<Ctx>> = const { std::cell::RefCell::new(None) };
    }
    rep.run_cases(threads, until, u64::MAX, move |rep, c, seed| {
        // a system serves 24 consecutive uses; its settings come from the case seed so that a
        // single case can be replayed alone
        let mut r = Rng::new(mix(seed, 77));
        let ctx = CTX.with(|x| x.borrow_mut().take());
        let mut ctx = match ctx {
            Some(x) if x.uses < 40 && rep.only_case.is_none() => x,
            _ => Ctx::new(prop, &mut r),
        };
        let (t, p, pol) = (ctx.throughput, ctx.prio, ctx.sys.policy);
        if let Ok(s) = std::env::var("KV_SYS") {
            let v: Vec<&str> = s.split(',').collect();
            if ctx.uses == 0 {
                let (t2, p2): (usize, f32) = (v[0].parse().unwrap(), v[1].parse().unwrap());
                let pol = match v[2] {
                    "Fifo" => Policy::Fifo,
                    "Lifo" => Policy::Lifo,
                    _ => Policy::Random,
                };
                let sys = DetSys::build(pol, &mut r, |c| {
                    c.throughput(t2);
                    c.msg_priority(p2);
                });
                ctx = Ctx { sys, throughput: t2, prio: p2, uses: 0 };
            }
        }
        ctx.uses += 1;
        let out = case(&mut ctx, prop, seed);
        rep.eval(out.sig, out.handlers > 5);
        for (k, n) in &out.obs {
            rep.count(k, *n);
        }
        if let Some(i) = &out.inconclusive {
            rep.inconclusive(&format!("case {}: {}", c, i));
        }
        if rep.wants_sample() && out.handlers > 20 {
            rep.sample(json!({"case": c, "handlers": out.handlers, "throughput": t, "trace_head": out.trace.iter().take(25).collect::<Vec<_>>()}));
        }
        let pn = take_local_panics();
        for p in pn.iter().take(1) {
            let d = format!("unexpected panic at {}: {}", p.location, p.message);
            let sig = format!("panic {}", p.location.rsplit_once('/').map(|x| x.1).unwrap_or("").split(':').next().unwrap_or(""));
            if p.location.contains("/kv/") || p.location.starts_with("src/") {
                rep.inconclusive(&d);
            } else if prop == "C06" || prop == "C04" {
                rep.violation(&sig, c, d, json!({"trace": out.trace}));
            }
        }
        for (tags, sig, d) in &out.viol {
            rep.count(&format!("raw_{}", sig), 1);
            if tags.contains(&prop) {
                let tail: Vec<&String> = out.trace.iter().rev().take(4000).collect::<Vec<_>>().into_iter().rev().collect();
                rep.violation(sig, c, format!("{} (KV_SYS={},{},{:?})", d, t, p, pol), json!({"trace_tail": tail}));
            }
        }
        if out.reuse && out.viol.is_empty() {
            CTX.with(|x| *x.borrow_mut() = Some(ctx));
        }
    });
}
