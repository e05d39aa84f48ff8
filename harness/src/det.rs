//! Deterministic single-threaded scheduling of a whole Kompact system.
use crate::util::*;
use futures::task::{ArcWake, waker};
use kompact::{
    component::{CoreContainer, SchedulingDecision},
    default_components::install_manual_timer,
    prelude::*,
    runtime::{Scheduler, SchedulerShutdownError},
    timer::ManualTimer,
};
use std::{
    collections::VecDeque,
    future::Future,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    task::{Context, Poll},
    time::Duration,
};
use uuid::Uuid;

pub enum Runnable {
    Comp(Arc<dyn CoreContainer>),
    Task(Arc<Task>),
}

pub struct Task {
    fut: Mutex<Option<futures::future::BoxFuture<'static, ()>>>,
    sched: DetScheduler,
    queued: AtomicBool,
}
impl ArcWake for Task {
    fn wake_by_ref(a: &Arc<Self>) {
        if !a.queued.swap(true, Ordering::SeqCst) {
            a.sched.0.queue.lock().unwrap().push_back(Runnable::Task(a.clone()));
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Random,
    Fifo,
    Lifo,
}

pub struct DetInner {
    queue: Mutex<VecDeque<Runnable>>,
    pub down: AtomicBool,
    pub poisoned: AtomicBool,
    pub executions: AtomicU64,
    pub schedules: AtomicU64,
    /// the component being executed and how its last execution ended
    pub current: Mutex<Option<Uuid>>,
    pub before: Mutex<Option<Box<dyn Fn(Uuid) + Send>>>,
    /// components are executed where they are scheduled (while the system boots under Miri, which
    /// has no timers for the boot future to wait with)
    pub inline: AtomicBool,
}

#[derive(Clone)]
pub struct DetScheduler(pub Arc<DetInner>);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
    Idle,
    Task,
    Exec(Uuid, Dec),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dec {
    Schedule,
    Already,
    NoWork,
    Blocked,
    Resume,
}

impl DetScheduler {
    pub fn new() -> Self {
        DetScheduler(Arc::new(DetInner {
            queue: Mutex::new(VecDeque::new()),
            down: AtomicBool::new(false),
            poisoned: AtomicBool::new(false),
            executions: AtomicU64::new(0),
            schedules: AtomicU64::new(0),
            current: Mutex::new(None),
            before: Mutex::new(None),
            inline: AtomicBool::new(false),
        }))
    }
    pub fn runnable(&self) -> usize {
        self.0.queue.lock().unwrap().len()
    }
    /// Ids of the components waiting to be executed.
    pub fn waiting(&self) -> Vec<Option<Uuid>> {
        self.0
            .queue
            .lock()
            .unwrap()
            .iter()
            .map(|r| match r {
                Runnable::Comp(c) => Some(c.id()),
                Runnable::Task(_) => None,
            })
            .collect()
    }
    /// Executes one runnable (once). The decision is acted upon as a pool would.
    pub fn step(&self, policy: Policy, rng: &mut Rng) -> Step {
        let r = {
            let mut q = self.0.queue.lock().unwrap();
            if q.is_empty() {
                return Step::Idle;
            }
            let i = match policy {
                Policy::Random => rng.below(q.len()),
                Policy::Fifo => 0,
                Policy::Lifo => q.len() - 1,
            };
            q.remove(i).unwrap()
        };
        match r {
            Runnable::Task(t) => {
                t.queued.store(false, Ordering::SeqCst);
                let mut slot = t.fut.lock().unwrap();
                if let Some(mut f) = slot.take() {
                    let w = waker(t.clone());
                    let mut cx = Context::from_waker(&w);
                    if f.as_mut().poll(&mut cx).is_pending() {
                        *slot = Some(f);
                    }
                }
                Step::Task
            }
            Runnable::Comp(c) => {
                let id = c.id();
                *self.0.current.lock().unwrap() = Some(id);
                self.0.executions.fetch_add(1, Ordering::Relaxed);
                if let Some(b) = self.0.before.lock().unwrap().as_ref() {
                    b(id)
                }
                let d = c.execute();
                *self.0.current.lock().unwrap() = None;
                let dec = match d {
                    SchedulingDecision::Schedule => {
                        self.0.queue.lock().unwrap().push_back(Runnable::Comp(c));
                        Dec::Schedule
                    }
                    SchedulingDecision::Resume => {
                        // a pool executes it again at once; in between, nothing else runs on this
                        // thread, but other threads' actions may, so re-queueing explores more
                        self.0.queue.lock().unwrap().push_back(Runnable::Comp(c));
                        Dec::Resume
                    }
                    SchedulingDecision::NoWork => Dec::NoWork,
                    SchedulingDecision::Blocked => Dec::Blocked,
                    SchedulingDecision::AlreadyScheduled => Dec::Already,
                };
                Step::Exec(id, dec)
            }
        }
    }
}

impl Scheduler for DetScheduler {
    fn schedule(&self, c: Arc<dyn CoreContainer>) {
        self.0.schedules.fetch_add(1, Ordering::Relaxed);
        if self.0.down.load(Ordering::SeqCst) {
            return;
        }
        if self.0.inline.load(Ordering::SeqCst) {
            loop {
                match c.execute() {
                    SchedulingDecision::Schedule | SchedulingDecision::Resume => continue,
                    _ => return,
                }
            }
        }
        self.0.queue.lock().unwrap().push_back(Runnable::Comp(c));
    }
    fn shutdown_async(&self) {
        self.0.down.store(true, Ordering::SeqCst);
    }
    fn shutdown(&self) -> Result<(), SchedulerShutdownError> {
        self.0.down.store(true, Ordering::SeqCst);
        Ok(())
    }
    fn shutdown_notify(&self) -> futures::future::BoxFuture<'static, Result<(), SchedulerShutdownError>> {
        self.0.down.store(true, Ordering::SeqCst);
        Box::pin(async { Ok(()) })
    }
    fn box_clone(&self) -> Box<dyn Scheduler> {
        Box::new(self.clone())
    }
    fn poison(&self) {
        self.0.poisoned.store(true, Ordering::SeqCst);
        self.0.down.store(true, Ordering::SeqCst);
    }
    fn spawn(&self, future: futures::future::BoxFuture<'static, ()>) {
        let t = Arc::new(Task {
            fut: Mutex::new(Some(future)),
            sched: self.clone(),
            queued: AtomicBool::new(false),
        });
        ArcWake::wake_by_ref(&t);
    }
}

pub struct DetSys {
    pub system: KompactSystem,
    pub sched: DetScheduler,
    pub timer: ManualTimer,
    pub policy: Policy,
    pub now_ms: u64,
}

struct Noop;
impl ArcWake for Noop {
    fn wake_by_ref(_: &Arc<Self>) {}
}

/// Polls `f` while stepping the scheduler; None if neither makes progress any more.
pub fn drive<F: Future + Unpin>(mut f: F, sched: &DetScheduler, policy: Policy, rng: &mut Rng, patience: Duration) -> Option<F::Output> {
    let w = waker(Arc::new(Noop));
    let mut cx = Context::from_waker(&w);
    let mut idle_since: Option<std::time::Instant> = None;
    loop {
        if let Poll::Ready(r) = std::pin::Pin::new(&mut f).poll(&mut cx) {
            return Some(r);
        }
        match sched.step(policy, rng) {
            Step::Idle => {
                let t = idle_since.get_or_insert_with(std::time::Instant::now);
                if t.elapsed() > patience {
                    return None;
                }
                std::thread::yield_now();
            }
            _ => idle_since = None,
        }
    }
}

impl DetSys {
    pub fn build(policy: Policy, rng: &mut Rng, conf: impl FnOnce(&mut KompactConfig)) -> DetSys {
        let mut cfg = KompactConfig::default();
        cfg.logger(null_logger());
        cfg.threads(1);
        let timer = install_manual_timer(&mut cfg);
        let sched = DetScheduler::new();
        let s2 = sched.clone();
        cfg.scheduler(move |_| s2.box_clone());
        conf(&mut cfg);
        sched.0.inline.store(cfg!(miri), Ordering::SeqCst);
        let system = drive(cfg.build(), &sched, policy, rng, Duration::from_secs(20))
            .expect("system did not come up")
            .expect("system build failed");
        sched.0.inline.store(false, Ordering::SeqCst);
        DetSys { system, sched, timer, policy, now_ms: 0 }
    }
    pub fn step(&self, rng: &mut Rng) -> Step {
        self.sched.step(self.policy, rng)
    }
    pub fn advance(&mut self, ms: u64) {
        self.now_ms += ms;
        self.timer.advance_by(Duration::from_millis(ms));
    }
    /// Steps until nothing is runnable; false if still busy after `max` steps.
    pub fn settle(&self, rng: &mut Rng, max: u64) -> bool {
        for _ in 0..max {
            if self.step(rng) == Step::Idle {
                return true;
            }
        }
        self.sched.runnable() == 0
    }
    pub fn drive<F: Future + Unpin>(&self, f: F, rng: &mut Rng) -> Option<F::Output> {
        drive(f, &self.sched, self.policy, rng, Duration::from_secs(20))
    }
}
