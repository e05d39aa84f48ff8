//! Seeded randomness, verdict reporting, panic capture.
use serde_json::{Value, json};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    io::Write,
    path::PathBuf,
    sync::{
        Arc, Mutex, OnceLock,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.next() % den as u64 <= (num as u64).wrapping_sub(1) && num > 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.next() % tot.max(1);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b.rotate_left(17));
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

// ---------------------------------------------------------------- panics

/// Payload of panics the workloads raise on purpose.
#[derive(Clone, Debug)]
pub struct Intended(pub u64);

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub thread: String,
    pub location: String,
    pub message: String,
}

static PANICS: Mutex<Vec<PanicRec>> = Mutex::new(Vec::new());
thread_local! {
    static LOCAL_PANICS: RefCell<Vec<PanicRec>> = const { RefCell::new(Vec::new()) };
    /// panics on this thread are expected
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static CASE: RefCell<Option<u64>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Intended>() || QUIET.try_with(|q| q.get()).unwrap_or(false) {
            return;
        }
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string payload>".to_string()
        };
        let rec = PanicRec {
            thread: std::thread::current().name().unwrap_or("?").to_string(),
            location: info
                .location()
                .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
                .unwrap_or_default(),
            message,
        };
        if std::env::var_os("KV_PANICS").is_some() {
            eprintln!("panic: {:?}", rec);
            if std::env::var_os("RUST_BACKTRACE").is_some() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
        let _ = LOCAL_PANICS.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                p.push(rec.clone())
            }
        });
        if let Ok(mut p) = PANICS.lock() {
            p.push(rec);
        }
    }));
}

/// Unintended panics on any thread since the last call.
pub fn take_panics() -> Vec<PanicRec> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}
/// Unintended panics on this thread since the last call.
pub fn take_local_panics() -> Vec<PanicRec> {
    LOCAL_PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

// ---------------------------------------------------------------- report

pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub case: u64,
    pub extra: Value,
}

struct Inner {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<Violation>,
    known_hits: BTreeMap<String, u64>,
    inconclusive: u64,
    inconclusive_notes: Vec<String>,
}

pub struct Report {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub only_case: Option<u64>,
    start: Instant,
    budget: Duration,
    pub stop: AtomicBool,
    /// delay at the delay points of the code under test, in some of the cases
    pub jitter: AtomicBool,
    cases: AtomicU64,
    known: Vec<(String, String)>,
    inner: Mutex<Inner>,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    inflight: Mutex<BTreeMap<usize, (u64, Instant)>>,
    hang_limit: Mutex<Duration>,
}

pub fn verif_dir() -> PathBuf {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())))
        .clone()
}

impl Report {
    pub fn new(prop: &str, quick_s: u64, thorough_s: u64) -> Arc<Report> {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough",
            _ => "quick",
        }
        .to_string();
        let budget = match std::env::var("KV_BUDGET").ok().and_then(|s| s.parse().ok()) {
            Some(b) => b,
            None if tier == "thorough" => thorough_s,
            None => quick_s,
        };
        let only_case = std::env::var("KV_CASE").ok().and_then(|s| s.parse().ok());
        let mut known = Vec::new();
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in t.lines() {
                // known: property=<id> sig=<signature> :: <text>
                if let Some(r) = l.strip_prefix("known: property=") {
                    if let Some((id, rest)) = r.split_once(" sig=") {
                        if id == prop {
                            let (sig, txt) = rest.split_once(" :: ").unwrap_or((rest, ""));
                            known.push((sig.trim().to_string(), txt.trim().to_string()));
                        }
                    }
                }
            }
        }
        Arc::new(Report {
            prop: prop.to_string(),
            seed,
            tier,
            only_case,
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            jitter: AtomicBool::new(false),
            stop: AtomicBool::new(false),
            cases: AtomicU64::new(0),
            known,
            inner: Mutex::new(Inner {
                evaluations: 0,
                distinct: HashSet::new(),
                counters: BTreeMap::new(),
                samples: Vec::new(),
                violations: Vec::new(),
                known_hits: BTreeMap::new(),
                inconclusive: 0,
                inconclusive_notes: Vec::new(),
            }),
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(Vec::new()),
            inflight: Mutex::new(BTreeMap::new()),
            hang_limit: Mutex::new(Duration::from_secs(120)),
        })
    }
    /// Marks the beginning of (or progress within) a case on worker `t`.
    pub fn begin(&self, t: usize, case: u64) {
        self.inflight.lock().unwrap().insert(t, (case, Instant::now()));
    }
    pub fn end(&self, t: usize) {
        self.inflight.lock().unwrap().remove(&t);
    }
    pub fn hang_limit(&self, d: Duration) {
        *self.hang_limit.lock().unwrap() = d;
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }
    pub fn time_up(&self) -> bool {
        self.stop.load(Ordering::Relaxed) || self.start.elapsed() > self.budget
    }
    /// Fraction of the budget used
    pub fn used(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64().max(0.001)
    }
    pub fn budget(&self) -> Duration {
        self.budget
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn eval(&self, signature: u64, nontrivial: bool) {
        let mut i = self.inner.lock().unwrap();
        i.evaluations += 1;
        if nontrivial {
            i.distinct.insert(signature);
        }
    }
    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 5 {
            i.samples.push(v);
        }
    }
    pub fn wants_sample(&self) -> bool {
        self.inner.lock().unwrap().samples.len() < 5
    }
    pub fn inconclusive(&self, note: &str) {
        let mut i = self.inner.lock().unwrap();
        i.inconclusive += 1;
        if i.inconclusive_notes.len() < 10 {
            i.inconclusive_notes.push(note.to_string());
        }
        if std::env::var_os("KV_VERBOSE").is_some() {
            eprintln!("inconclusive: {}", note);
        }
    }
    pub fn violation(&self, sig: &str, case: u64, detail: String, extra: Value) {
        let mut i = self.inner.lock().unwrap();
        if let Some((k, _)) = self.known.iter().find(|(k, _)| k == sig) {
            *i.known_hits.entry(k.clone()).or_insert(0) += 1;
            return;
        }
        if std::env::var_os("KV_VERBOSE").is_some() {
            eprintln!("violation sig={} case={} {}", sig, case, detail);
        }
        if i.violations.len() < 50 {
            i.violations.push(Violation { sig: sig.to_string(), detail, case, extra });
        }
        let distinct: HashSet<&str> = i.violations.iter().map(|v| v.sig.as_str()).collect();
        if distinct.len() >= 5 || i.violations.len() >= 20 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn violated(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }
    pub fn finish(self: &Arc<Self>) -> i32 {
        let (reached, delayed) = delays::seen();
        if reached > 0 {
            self.count("delay_points_reached", reached);
            self.count("delays_injected", delayed);
        }
        let i = self.inner.lock().unwrap();
        let dir = verif_dir();
        for (sig, txt) in &self.known {
            println!("KNOWN-FINDING: property={} sig={} {} (hits this run: {})", self.prop, sig, txt, i.known_hits.get(sig).copied().unwrap_or(0));
        }
        let mut rc = 0;
        // under a sanitizer the workload only provides executions; the sanitizer gives the verdict
        let sub = std::env::var_os("KV_SUB");
        if !i.violations.is_empty() && sub.is_none() {
            rc = 1;
            let rdir = dir.join("work").join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let mut seen = HashSet::new();
            for v in &i.violations {
                if !seen.insert(v.sig.clone()) {
                    continue;
                }
                let safe: String = v.sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(60).collect();
                let path = rdir.join(format!("{}-{}-{}.json", self.prop, self.seed, safe));
                let doc = json!({"property": self.prop, "sig": v.sig, "detail": v.detail, "case": v.case,
                    "replay": format!("VERIF_SEED={} VERIF_TIER={} KV_CASE={} bash /verif/check.sh {}", self.seed, self.tier, v.case, self.prop),
                    "extra": v.extra});
                let _ = std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap());
                println!("VIOLATION property={} replay={}", self.prop, path.display());
                println!("  {}: {}", v.sig, v.detail.chars().take(2000).collect::<String>());
            }
        }
        let ev = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": i.evaluations,
                "distinct_nontrivial": i.distinct.len(),
                "rule": *self.rule.lock().unwrap(),
                "samples": i.samples,
                "observed": i.counters,
                "inconclusive": i.inconclusive,
                "inconclusive_notes": i.inconclusive_notes,
                "known_finding_hits": i.known_hits,
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": i.violations.len(),
        });
        if let Some(p) = sub {
            let _ = std::fs::write(p, serde_json::to_vec_pretty(&ev).unwrap());
            return 0;
        }
        let edir = dir.join("evidence");
        let _ = std::fs::create_dir_all(&edir);
        let _ = std::fs::write(edir.join(format!("{}.json", self.prop)), serde_json::to_vec_pretty(&ev).unwrap());
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {} inconclusive, {:.1}s {:?}",
            self.prop, i.evaluations, i.distinct.len(), i.violations.len(), i.inconclusive,
            self.start.elapsed().as_secs_f64(), i.counters
        );
        let _ = std::io::stdout().flush();
        if rc == 0 && i.evaluations == 0 && self.only_case.is_none() {
            eprintln!("{}: observed nothing", self.prop);
            rc = 2;
        }
        rc
    }

    /// Cases from here on are numbered from `n`.
    pub fn case_base(&self, n: u64) {
        self.cases.store(n, Ordering::SeqCst);
    }

    /// Runs `f(case_number, case_seed)` on `threads` threads until the budget (scaled by `share`
    /// of the total, measured from the start) is used up or `max_cases` is reached.
    fn perturb(&self, c: u64) {
        if self.jitter.load(Ordering::SeqCst) {
            let levels = [0, 4, 30, 0, 150, 400];
            delays::set(levels[(mix(self.seed, c) >> 33) as usize % levels.len()]);
        }
    }
    pub fn run_cases<F>(self: &Arc<Self>, threads: usize, until: f64, max_cases: u64, f: F)
    where
        F: Fn(&Arc<Report>, u64, u64) + Send + Sync + 'static,
    {
        let f = Arc::new(f);
        let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
        let threads = threads.min(env("KV_THREADS").unwrap_or(u64::MAX) as usize);
        let max_cases = max_cases.min(env("KV_CASES").unwrap_or(u64::MAX));
        if let Some(c) = self.only_case {
            self.begin(0, c);
            self.perturb(c);
            f(self, c, mix(self.seed, c));
            delays::set(0);
            self.end(0);
            return;
        }
        let base = self.cases.load(Ordering::SeqCst);
        let mut hs = Vec::new();
        for t in 0..threads {
            let me = self.clone();
            let f = f.clone();
            hs.push(
                std::thread::Builder::new()
                    .name(format!("case-runner-{}", t))
                    .stack_size(16 << 20)
                    .spawn(move || {
                        while !me.time_up() && me.used() < until {
                            let c = me.cases.fetch_add(1, Ordering::SeqCst);
                            if c - base >= max_cases {
                                break;
                            }
                            me.begin(t, c);
                            me.perturb(c);
                            f(&me, c, mix(me.seed, c));
                            me.end(t);
                        }
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            if h.join().is_err() {
                let p = take_panics();
                delays::set(0);
                self.violation("workload-panicked", 0, format!("a call into the library panicked on the workload's thread: {:?}", p), json!({}));
            }
        }
        delays::set(0);
    }
}

/// Reports a case that makes no progress for very long as a hang (nothing any workload does waits
/// that long), and ends a run that as a whole takes far too long without a verdict.
pub fn watchdog(rep: &Arc<Report>, limit: Duration) {
    let rep = rep.clone();
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || {
            let start = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let lim = *rep.hang_limit.lock().unwrap();
                let stuck = rep.inflight.lock().unwrap().iter().find(|(_, (_, t))| t.elapsed() > lim).map(|(_, (c, _))| *c);
                if let Some(c) = stuck {
                    rep.violation("hang", c, format!("the case made no progress for {:?}", lim), json!({"panics": format!("{:?}", take_panics())}));
                    let rc = rep.finish();
                    std::process::exit(rc);
                }
                if start.elapsed() > limit {
                    eprintln!("watchdog: run exceeded {:?}; no verdict", limit);
                    std::process::exit(3);
                }
            }
        })
        .unwrap();
}

pub fn process_cpu() -> Duration {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
    }
}

/// A logger that discards everything.
pub fn null_logger() -> kompact::KompactLogger {
    use slog::Drain;
    static L: OnceLock<kompact::KompactLogger> = OnceLock::new();
    L.get_or_init(|| {
        if std::env::var_os("KV_LOG").is_some() {
            struct Std;
            impl slog::Drain for Std {
                type Ok = ();
                type Err = slog::Never;
                fn log(&self, r: &slog::Record<'_>, _v: &slog::OwnedKVList) -> Result<(), slog::Never> {
                    eprintln!("[{}] {}:{} {}", r.level(), r.file(), r.line(), r.msg());
                    Ok(())
                }
            }
            let drain = slog_async::Async::new(Std.fuse()).chan_size(4096).build().fuse();
            return slog::Logger::root_typed(Arc::new(drain), slog::o!());
        }
        let drain = slog_async::Async::new(slog::Discard.fuse()).chan_size(256).build().fuse();
        slog::Logger::root_typed(Arc::new(drain), slog::o!())
    })
    .clone()
}

/// Delays at the points where the code under test announces that another thread may interfere
/// (`kompact::delay_points`, compiled in with `--cfg kompact_verif`).
pub mod delays {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
    static LEVEL: AtomicU32 = AtomicU32::new(0);
    static REACHED: AtomicU64 = AtomicU64::new(0);
    static DELAYED: AtomicU64 = AtomicU64::new(0);
    thread_local! { static STATE: Cell<u64> = const { Cell::new(0) }; }
    fn point(at: &'static str) {
        let level = LEVEL.load(Relaxed);
        if level == 0 {
            return;
        }
        let _ = STATE.try_with(|s| {
            let mut x = s.get();
            if x == 0 {
                x = (s as *const _ as u64) ^ 0x9E3779B97F4A7C15;
            }
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            s.set(x);
            REACHED.fetch_add(1, Relaxed);
            let roll = (x >> 20) as u32 & 1023;
            if at == "network-poll" && level >= 30 && (x >> 32) & 15 == 0 {
                // long enough for several events to be handled together
                DELAYED.fetch_add(1, Relaxed);
                std::thread::sleep(std::time::Duration::from_micros((x >> 36) & 4095));
            }
            if roll >= level {
                return;
            }
            DELAYED.fetch_add(1, Relaxed);
            match (x >> 40) & 15 {
                0 => std::thread::sleep(std::time::Duration::from_micros(50)),
                1..=5 => std::thread::yield_now(),
                k => {
                    let n = (k - 5) * ((x >> 48) & 255);
                    for _ in 0..n {
                        std::hint::spin_loop();
                    }
                }
            }
        });
    }
    /// Delays at `level` of 1024 points from now on (0: none).
    pub fn set(level: u32) {
        #[cfg(kompact_verif)]
        {
            static ONCE: std::sync::Once = std::sync::Once::new();
            ONCE.call_once(|| {
                kompact::delay_points::install(point);
            });
        }
        let _ = point;
        LEVEL.store(level, Relaxed);
    }
    /// How many points were reached, and how many of them delayed.
    pub fn seen() -> (u64, u64) {
        (REACHED.load(Relaxed), DELAYED.load(Relaxed))
    }
}
