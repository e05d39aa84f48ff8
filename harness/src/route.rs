//! D01, D02: names, unique paths and routing groups. A model of the name tree predicts, for every message
//! sent to a path, which components may handle it; every network message a component (or the deadletter
//! box) handles is logged, and both sides are compared after each batch of messages.
use crate::{det::*, util::*};
use kompact::{
    prelude::*,
    routing::groups::{BroadcastRouting, RoundRobinRouting, SenderDefaultHashBucketRouting, StorePolicy},
};
use serde_json::json;
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    sync::{Arc, Condvar, Mutex},
    time::{Duration, Instant},
};
use uuid::Uuid;

const DEADBOX: usize = usize::MAX;
const PANIC_BIT: u64 = 1 << 63;
const PATIENCE: Duration = Duration::from_secs(25);

#[derive(Default)]
struct World {
    log: Mutex<Vec<(usize, u64, ActorPath)>>,
    cv: Condvar,
}
impl World {
    fn put(&self, who: usize, id: u64, sender: ActorPath) {
        self.log.lock().unwrap().push((who, id, sender));
        self.cv.notify_all();
    }
    fn wait_for(&self, who: usize, id: u64) -> bool {
        let end = Instant::now() + PATIENCE;
        let mut g = self.log.lock().unwrap();
        while !g.iter().any(|(w, i, _)| *w == who && *i == id) {
            let now = Instant::now();
            if now >= end {
                return false;
            }
            g = self.cv.wait_timeout(g, (end - now).min(Duration::from_millis(200))).unwrap().0;
        }
        true
    }
}

#[derive(ComponentDefinition)]
struct Node {
    ctx: ComponentContext<Self>,
    idx: usize,
    w: Arc<World>,
}
ignore_lifecycle!(Node);
impl Actor for Node {
    type Message = Ask<(), ()>;
    fn receive_local(&mut self, m: Self::Message) -> HandlerResult {
        let _ = m.reply(());
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let sender = m.sender.clone();
        match m.data.try_deserialise::<u64, u64>() {
            Ok(id) => {
                self.w.put(self.idx, id, sender);
                if id & PANIC_BIT != 0 {
                    std::panic::panic_any(Intended(id));
                }
            }
            Err(e) => self.w.put(self.idx, u64::MAX >> 1, { let _ = e; sender }),
        }
        Handled::OK
    }
}

#[derive(ComponentDefinition)]
struct Dead {
    ctx: ComponentContext<Self>,
    ready: Option<KPromise<()>>,
    w: Arc<World>,
}
impl ComponentLifecycle for Dead {
    fn on_start(&mut self) -> HandlerResult {
        if let Some(p) = self.ready.take() {
            let _ = p.complete();
        }
        Handled::OK
    }
}
impl Actor for Dead {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let sender = m.sender.clone();
        if let Ok(id) = m.data.try_deserialise::<u64, u64>() {
            self.w.put(DEADBOX, id, sender);
        }
        Handled::OK
    }
}

enum Sys {
    Det(Box<DetSys>),
    Net { target: KompactSystem, remote: Option<KompactSystem> },
}
impl Sys {
    fn target(&self) -> &KompactSystem {
        match self {
            Sys::Det(d) => &d.system,
            Sys::Net { target, .. } => target,
        }
    }
    fn wait<T: Send + 'static>(&self, f: KFuture<T>, rng: &mut Rng) -> Option<T> {
        match self {
            Sys::Det(d) => d.drive(f, rng).and_then(|r| r.ok()),
            Sys::Net { .. } => f.wait_timeout(PATIENCE).ok(),
        }
    }
    fn remote(&self) -> bool {
        matches!(self, Sys::Net { remote: Some(_), .. })
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Pol {
    Broadcast,
    Robin,
    Hash,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Entry {
    Actor(usize),
    Policy(Pol, u32),
}

struct Comp {
    comp: Option<Arc<Component<Node>>>,
    id: Uuid,
    unique: Option<ActorPath>,
    alive: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Expect {
    One(usize),
    /// registered for a component that is dead: no other component gets it
    Lost,
    /// nobody registered
    Nobody,
    Group { base: Vec<String>, pol: Pol, members: Vec<usize>, explicit: u32 },
    /// a marker below an actor: not documented; deadletters or the group below
    Unspecified { members: Vec<usize> },
}

#[derive(Default)]
struct Model {
    names: BTreeMap<Vec<String>, Entry>,
    /// when each name was last set
    stamps: BTreeMap<Vec<String>, u32>,
    comps: Vec<Comp>,
}
impl Model {
    fn set(&mut self, n: Vec<String>, e: Entry) {
        let s = self.stamps.len() as u32 + self.stamps.values().max().copied().unwrap_or(0) + 1;
        self.stamps.insert(n.clone(), s);
        self.names.insert(n, e);
    }
    /// When the tree below `base` last changed.
    fn stamp(&self, base: &[String]) -> u32 {
        self.stamps.iter().filter(|(k, _)| k.len() > base.len() && &k[..base.len()] == base).map(|(_, s)| *s).max().unwrap_or(0)
    }
    fn members(&self, base: &[String]) -> Vec<usize> {
        let mut v: Vec<usize> = self
            .names
            .iter()
            .filter(|(k, _)| k.len() > base.len() && &k[..base.len()] == base)
            .filter_map(|(_, e)| match e {
                Entry::Actor(i) => Some(*i),
                _ => None,
            })
            .collect();
        v.sort();
        v
    }
    fn expect(&self, t: &Target) -> Expect {
        let segs = match t {
            Target::Unique(i) => {
                let c = &self.comps[*i];
                return match (&c.unique, c.alive) {
                    (None, _) => Expect::Nobody,
                    (_, true) => Expect::One(*i),
                    _ => Expect::Lost,
                };
            }
            Target::Stranger(_) => return Expect::Nobody,
            Target::Name(s) => s,
        };
        let Some(last) = segs.last() else { return Expect::Nobody };
        let marker = match last.as_str() {
            "*" => Some('*'),
            "?" => Some('?'),
            _ => None,
        };
        let base = if marker.is_some() { &segs[..segs.len() - 1] } else { &segs[..] };
        let members = self.members(base);
        match self.names.get(base) {
            Some(Entry::Actor(i)) if marker.is_none() => {
                if self.comps[*i].alive {
                    Expect::One(*i)
                } else {
                    Expect::Lost
                }
            }
            Some(Entry::Actor(_)) => Expect::Unspecified { members },
            Some(Entry::Policy(p, generation)) => match (marker, p) {
                (Some('*'), Pol::Robin | Pol::Hash) | (Some('?'), Pol::Broadcast) => Expect::Nobody,
                _ => Expect::Group { base: base.to_vec(), pol: *p, members, explicit: *generation },
            },
            None => match marker {
                None => Expect::Nobody,
                Some('*') => Expect::Group { base: base.to_vec(), pol: Pol::Broadcast, members, explicit: 0 },
                _ => Expect::Group { base: base.to_vec(), pol: Pol::Hash, members, explicit: 0 },
            },
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Target {
    Unique(usize),
    Stranger(Uuid),
    Name(Vec<String>),
}

struct Sent {
    id: u64,
    target: Target,
    sender: ActorPath,
    alts: Vec<Expect>,
}

/// What a select route did since its membership last changed.
struct Route {
    members: Vec<usize>,
    generation: u32,
    stamp: u32,
    order: Vec<usize>,
    by_sender: HashMap<ActorPath, usize>,
    since: Instant,
}

struct Case<'a> {
    rep: &'a Arc<Report>,
    prop: &'static str,
    case: u64,
    seed: u64,
    sys: Sys,
    w: Arc<World>,
    m: Model,
    pending: Vec<Sent>,
    mixed: bool,
    routes: HashMap<(Vec<String>, Pol), Route>,
    senders: Vec<ActorPath>,
    fence: Option<(usize, ActorPath)>,
    next_id: u64,
    generation: u32,
    ops: Vec<String>,
    failed: bool,
    /// ids of messages the driver sends for itself
    own: HashSet<u64>,
    sig: u64,
}

fn seg(rng: &mut Rng) -> String {
    match rng.weighted(&[30, 2, 1, 1]) {
        0 => rng.pick(&["a", "b", "c"]).to_string(),
        1 => rng.pick(&["A", "ab", "a b", "a.b", "ä", "-", "0", "%2F", ":", "@"]).to_string(),
        2 => "x".repeat(rng.range(1, 40)),
        _ => format!("n{}", rng.below(4)),
    }
}
fn name(rng: &mut Rng) -> Vec<String> {
    (0..rng.weighted(&[0, 5, 4, 2, 1])).map(|_| seg(rng)).collect()
}
fn bad_alias(rng: &mut Rng) -> String {
    let mut v = name(rng);
    let p = rng.below(v.len());
    match rng.below(6) {
        0 => v[p] = String::new(),
        1 => v[p] = rng.pick(&["*", "?", "#", "a*", "?a", "a#b", "**"]).to_string(),
        2 => v.push("*".into()),
        3 => v.push("?".into()),
        4 => v.push(String::new()),
        _ => v.insert(0, String::new()),
    }
    v.join("/")
}

impl Case<'_> {
    fn bad(&mut self, sig: &str, detail: String) {
        if !self.failed {
            let n = self.ops.len();
            let tail: Vec<String> = self.ops[n.saturating_sub(60)..].to_vec();
            self.rep.violation(
                sig,
                self.case,
                detail,
                json!({"seed": self.seed, "world": match &self.sys { Sys::Det(_) => "local dispatcher", Sys::Net{remote: None,..} => "network dispatcher", _ => "remote sender" }, "last_operations": tail}),
            );
        }
        self.failed = true;
    }
    fn note(&mut self, s: String) {
        self.sig = mix(self.sig, hash_bytes(s.as_bytes()));
        self.ops.push(s);
    }
    fn create(&mut self, rng: &mut Rng) -> usize {
        let idx = self.m.comps.len();
        let w = self.w.clone();
        let comp = self.sys.target().create(move || Node { ctx: ComponentContext::uninitialised(), idx, w });
        self.sys.target().start(&comp);
        let id = comp.id();
        self.m.comps.push(Comp { comp: Some(comp), id, unique: None, alive: true });
        self.note(format!("create {}", idx));
        if rng.chance(2, 3) {
            self.register_unique(idx, rng);
        }
        idx
    }
    fn alive(&self) -> Vec<usize> {
        (0..self.m.comps.len()).filter(|i| self.m.comps[*i].alive && self.m.comps[*i].comp.is_some() && self.fence.as_ref().is_none_or(|f| f.0 != *i)).collect()
    }
    fn lost_answer(&mut self, what: &str) {
        self.bad("registration-never-answered", format!("{} was not answered", what));
    }
    fn register_unique(&mut self, i: usize, rng: &mut Rng) {
        let f = self.sys.target().register(self.m.comps[i].comp.as_ref().unwrap());
        self.note(format!("register {}", i));
        let Some(r) = self.sys.wait(f, rng) else { return self.lost_answer("register") };
        let want: ActorPath = self.sys.target().system_path().into_unique(self.m.comps[i].id).into();
        match (&r, self.m.comps[i].unique.is_some()) {
            (Ok(p), false) if *p == want => self.m.comps[i].unique = Some(want),
            (Err(RegistrationError::DuplicateEntry), true) => (),
            (_, had) => self.bad("unique-registration", format!("registering component {} gave {:?}, registered before: {}", i, r, had)),
        }
        self.rep.count("unique_registrations", 1);
        self.changed();
    }
    fn changed(&mut self) {
        self.mixed |= !self.pending.is_empty();
        for i in 0..self.pending.len() {
            let e = self.m.expect(&self.pending[i].target);
            if !self.pending[i].alts.contains(&e) {
                self.pending[i].alts.push(e);
            }
        }
    }
    fn register_name(&mut self, rng: &mut Rng) {
        let alive = self.alive();
        if alive.is_empty() {
            return;
        }
        let i = *rng.pick(&alive);
        let update = rng.chance(1, 3);
        if rng.chance(1, 12) {
            let a = bad_alias(rng);
            let t = self.sys.target();
            let c = self.m.comps[i].comp.as_ref().unwrap();
            let f = if update { t.update_alias_registration(c, a.clone()) } else { t.register_by_alias(c, a.clone()) };
            self.note(format!("alias {:?} for {} update={}", a, i, update));
            match self.sys.wait(f, rng) {
                Some(Err(RegistrationError::InvalidPath(_))) => (),
                r => self.bad("invalid-alias-accepted", format!("alias {:?}: {:?}", a, r)),
            }
            self.rep.count("invalid_aliases", 1);
            return;
        }
        let n = if rng.chance(1, 3) && !self.m.names.is_empty() {
            let ks: Vec<_> = self.m.names.keys().cloned().collect();
            let mut k = rng.pick(&ks).clone();
            if rng.chance(1, 3) {
                k.push(seg(rng));
            }
            k
        } else {
            name(rng)
        };
        let alias = n.join("/");
        let t = self.sys.target();
        let c = self.m.comps[i].comp.as_ref().unwrap();
        let f = if update { t.update_alias_registration(c, alias.clone()) } else { t.register_by_alias(c, alias.clone()) };
        self.note(format!("alias {:?} for {} update={}", alias, i, update));
        let Some(r) = self.sys.wait(f, rng) else { return self.lost_answer("alias registration") };
        let owner = self.m.names.get(&n).copied();
        let owner_dead = matches!(owner, Some(Entry::Actor(o)) if !self.m.comps[o].alive);
        match (&r, owner) {
            (Err(RegistrationError::DuplicateEntry), Some(_)) if !update => self.rep.count("refused_duplicates", 1),
            (Ok(p), o) if o.is_none() || update || owner_dead => {
                let want: ActorPath = NamedPath::with_system(self.sys.target().system_path(), n.clone()).into();
                if *p != want {
                    self.bad("registration-path", format!("alias {:?} was registered as {}", alias, p));
                }
                self.m.set(n, Entry::Actor(i));
                self.rep.count("alias_registrations", 1);
            }
            _ => self.bad("alias-registration", format!("alias {:?} update={} gave {:?}, owner {:?}", alias, update, r, owner)),
        }
        self.changed();
    }
    fn set_policy(&mut self, rng: &mut Rng) {
        let n = if rng.chance(1, 2) && !self.m.names.is_empty() {
            let ks: Vec<_> = self.m.names.keys().cloned().collect();
            let mut k = rng.pick(&ks).clone();
            if k.len() > 1 && rng.chance(2, 3) {
                k.pop();
            }
            k
        } else {
            name(rng)
        };
        let update = rng.chance(1, 2);
        let pol = *rng.pick(&[Pol::Broadcast, Pol::Robin, Pol::Robin, Pol::Hash]);
        let sp: StorePolicy = match pol {
            Pol::Broadcast => BroadcastRouting.into(),
            Pol::Robin => RoundRobinRouting::new().into(),
            Pol::Hash => SenderDefaultHashBucketRouting::default().into(),
        };
        let alias = n.join("/");
        let f = self.sys.target().set_routing_policy(sp, &alias, update);
        self.note(format!("policy {:?} at {:?} update={}", pol, alias, update));
        let Some(r) = self.sys.wait(f, rng) else { return self.lost_answer("policy registration") };
        let owner = self.m.names.get(&n).copied();
        let owner_dead = matches!(owner, Some(Entry::Actor(o)) if !self.m.comps[o].alive);
        match (&r, owner) {
            (Err(RegistrationError::DuplicateEntry), Some(_)) if !update => (),
            (Ok(p), o) if o.is_none() || update || owner_dead => {
                let want: ActorPath = NamedPath::with_system(self.sys.target().system_path(), n.clone()).into();
                if *p != want {
                    self.bad("registration-path", format!("policy {:?} was registered as {}", alias, p));
                }
                self.generation += 1;
                self.m.set(n, Entry::Policy(pol, self.generation));
                self.rep.count("policies_set", 1);
            }
            _ => self.bad("policy-registration", format!("policy {:?} update={} gave {:?}, owner {:?}", alias, update, r, owner)),
        }
        self.changed();
    }
    fn pick_target(&mut self, rng: &mut Rng) -> Target {
        let weights: &[u32] = if self.prop == "D01" { &[4, 1, 10, 3, 3, 1] } else { &[1, 0, 2, 6, 10, 6] };
        match rng.weighted(weights) {
            0 if !self.m.comps.is_empty() => Target::Unique(rng.below(self.m.comps.len())),
            1 => Target::Stranger(Uuid::from_u128(rng.next() as u128)),
            2 if !self.m.names.is_empty() => {
                let ks: Vec<_> = self.m.names.keys().collect();
                Target::Name((*rng.pick(&ks)).clone())
            }
            3 | 4 if !self.m.names.is_empty() => {
                let ks: Vec<_> = self.m.names.keys().collect();
                let mut k = (*rng.pick(&ks)).clone();
                let n = rng.below(k.len() + 1);
                k.truncate(n);
                if k.is_empty() || rng.chance(3, 4) {
                    k.push(if rng.chance(1, 2) { "*" } else { "?" }.to_string());
                }
                Target::Name(k)
            }
            5 => {
                // routes with an explicit policy
                let ks: Vec<_> = self.m.names.iter().filter(|(_, e)| matches!(e, Entry::Policy(..))).map(|(k, _)| k.clone()).collect();
                if ks.is_empty() {
                    return Target::Name(name(rng));
                }
                let mut k = rng.pick(&ks).clone();
                match rng.below(4) {
                    0 => k.push("?".into()),
                    1 => k.push("*".into()),
                    _ => (),
                }
                Target::Name(k)
            }
            _ => Target::Name(name(rng)),
        }
    }
    fn path(&self, t: &Target) -> ActorPath {
        let sp = self.sys.target().system_path();
        match t {
            Target::Unique(i) => sp.into_unique(self.m.comps[*i].id).into(),
            Target::Stranger(u) => sp.into_unique(*u).into(),
            Target::Name(s) => NamedPath::with_system(sp, s.clone()).into(),
        }
    }
    fn tell(&self, path: &ActorPath, id: u64, sender: &ActorPath) {
        match &self.sys {
            Sys::Net { remote: Some(r), .. } => path.tell_with_sender(id, r, sender.clone()),
            s => path.tell_with_sender(id, s.target(), sender.clone()),
        }
    }
    fn send_to(&mut self, t: Target, rng: &mut Rng) {
        let id = self.next_id;
        self.next_id += 1;
        let sender = rng.pick(&self.senders).clone();
        let e = self.m.expect(&t);
        self.note(format!("send {} to {:?} by {}", id, t, sender));
        self.tell(&self.path(&t), id, &sender);
        self.pending.push(Sent { id, target: t, sender, alts: vec![e] });
    }
    /// Waits until everything sent so far has been dealt with.
    fn fence(&mut self, rng: &mut Rng) -> bool {
        match &self.sys {
            Sys::Det(d) => {
                if !d.settle(rng, 2_000_000) {
                    self.bad("never-quiet", "the system does not become quiet".into());
                    return false;
                }
            }
            Sys::Net { .. } => {
                let (fi, fp) = self.fence.clone().unwrap();
                let id = self.next_id;
                self.next_id += 2;
                self.own.extend([id, id + 1]);
                let sender = self.senders[0].clone();
                self.tell(&fp, id, &sender);
                if !self.w.wait_for(fi, id) {
                    self.bad("message-lost", format!("message {} to a registered, live component did not arrive", id));
                    return false;
                }
                if !self.sys.remote() {
                    let nowhere: ActorPath = self.sys.target().system_path().into_unique(Uuid::from_u128(1)).into();
                    self.tell(&nowhere, id + 1, &sender);
                    if !self.w.wait_for(DEADBOX, id + 1) {
                        self.bad("deadletter-lost", format!("message {} to an unregistered unique path did not reach the deadletter box", id + 1));
                        return false;
                    }
                }
                for i in self.alive() {
                    let f = self.m.comps[i].comp.as_ref().unwrap().actor_ref().ask(());
                    if f.wait_timeout(PATIENCE).is_err() {
                        self.bad("component-stuck", format!("component {} does not answer", i));
                        return false;
                    }
                }
            }
        }
        true
    }
    fn check(&mut self, rng: &mut Rng) {
        if self.failed || !self.fence(rng) {
            return;
        }
        let mut got: HashMap<u64, Vec<usize>> = HashMap::new();
        let mut wrong_sender = None;
        for (who, id, sender) in std::mem::take(&mut *self.w.log.lock().unwrap()) {
            if let Some(s) = self.pending.iter().find(|s| s.id == id)
                && s.sender != sender
            {
                wrong_sender = Some(format!("message {} was sent by {} but arrived as from {}", id, s.sender, sender));
            }
            got.entry(id).or_default().push(who);
        }
        if let Some(d) = wrong_sender {
            self.bad("sender-changed", d);
        }
        let remote = self.sys.remote();
        let pending = std::mem::take(&mut self.pending);
        for s in &pending {
            let mut g = got.remove(&s.id).unwrap_or_default();
            g.sort();
            let boxed = g == [DEADBOX];
            let ok = s.alts.iter().any(|e| match e {
                Expect::One(i) => g == [*i],
                Expect::Lost => g.is_empty() || boxed,
                Expect::Nobody => if remote { g.is_empty() || boxed } else { boxed },
                Expect::Group { pol, members, .. } => self.group_ok(*pol, members, &g),
                Expect::Unspecified { members } => g.is_empty() || boxed || self.group_ok(Pol::Broadcast, members, &g) || self.group_ok(Pol::Hash, members, &g),
            });
            for e in &s.alts[..1] {
                let k = match e {
                    Expect::One(_) => "sent_to_a_live_owner",
                    Expect::Lost => "sent_to_a_dead_owner",
                    Expect::Nobody => "sent_to_nobody",
                    Expect::Group { members, .. } if members.is_empty() => "routed_to_empty_groups",
                    Expect::Group { pol: Pol::Broadcast, .. } => "broadcasts",
                    Expect::Group { pol: Pol::Robin, .. } => "round_robin_selects",
                    Expect::Group { pol: Pol::Hash, .. } => "hash_selects",
                    Expect::Unspecified { .. } => "markers_below_an_actor",
                };
                self.rep.count(k, 1);
            }
            if !ok {
                let mut shown: Vec<String> = g.iter().map(|w| if *w == DEADBOX { "deadletter box".into() } else { w.to_string() }).collect();
                shown.truncate(10);
                let kind = match &s.alts[0] {
                    Expect::Group { pol: Pol::Broadcast, .. } => "broadcast-wrong-receivers",
                    Expect::Group { .. } => "select-wrong-receivers",
                    _ => "wrong-receiver",
                };
                self.bad(kind, format!("message {} to {:?} was handled by {:?}; possible: {:?}", s.id, s.target, shown, s.alts));
                return;
            }
            self.policy_check(s, &g);
        }
        if let Some((id, who)) = got.iter().find(|(id, _)| !self.own.contains(id)) {
            self.bad("handled-again", format!("message {} was handled by {:?} although it was dealt with before", id, who));
        }
        self.mixed = false;
    }
    fn group_ok(&self, pol: Pol, members: &[usize], g: &[usize]) -> bool {
        let live: Vec<usize> = members.iter().copied().filter(|i| self.m.comps[*i].alive).collect();
        let dead = live.len() < members.len();
        match pol {
            _ if members.is_empty() => g.is_empty() || g == [DEADBOX],
            Pol::Broadcast => g == live || (live.is_empty() && g == [DEADBOX]),
            _ => (g.len() == 1 && live.contains(&g[0])) || (dead && (g.is_empty() || g == [DEADBOX])),
        }
    }
    /// Evenness of round-robin and stability of hash routes.
    fn policy_check(&mut self, s: &Sent, g: &[usize]) {
        let [Expect::Group { base, pol, members, explicit }] = &s.alts[..] else { return };
        if *pol == Pol::Broadcast || members.is_empty() {
            return;
        }
        let key = (base.clone(), *pol);
        let stable = !self.mixed && members.iter().all(|i| self.m.comps[*i].alive);
        if !stable {
            self.routes.remove(&key);
            return;
        }
        let stamp = self.m.stamp(base);
        let same = self.routes.get(&key).is_some_and(|r| r.members == *members && r.generation == *explicit && r.stamp == stamp);
        if !same {
            self.routes.insert(
                key.clone(),
                Route { members: members.clone(), generation: *explicit, stamp, order: vec![], by_sender: HashMap::new(), since: Instant::now() },
            );
        }
        let remote = self.sys.remote();
        let r = self.routes.get_mut(&key).unwrap();
        let mut problem = None;
        match pol {
            Pol::Robin => {
                r.order.push(g[0]);
                let n = members.len();
                if remote {
                    // a concurrent clean-up of the store may repeat a position
                    let slack = 2 + r.since.elapsed().as_millis() as usize / 20;
                    let per = r.order.len() as f64 / n as f64;
                    for m in members {
                        let entries = members.iter().filter(|x| *x == m).count();
                        let c = r.order.iter().filter(|x| *x == m).count();
                        if (c as f64 - per * entries as f64).abs() > (slack + entries) as f64 {
                            problem = Some(format!("member {} got {} of {} messages in {} shares", m, c, r.order.len(), n));
                        }
                    }
                } else if r.order.len() >= n {
                    let mut last: Vec<usize> = r.order[r.order.len() - n..].to_vec();
                    last.sort();
                    if last != r.members {
                        problem = Some(format!("{} consecutive messages to {} members went to {:?}", n, n, last));
                    }
                }
                self.rep.count("even_rounds_checked", 1);
            }
            Pol::Hash => {
                let prev = *r.by_sender.entry(s.sender.clone()).or_insert(g[0]);
                if prev != g[0] {
                    problem = Some(format!("messages of {} went to {} and then to {}", s.sender, prev, g[0]));
                }
                self.rep.count("hash_choices_checked", 1);
            }
            Pol::Broadcast => (),
        }
        if let Some(p) = problem {
            let sig = if *pol == Pol::Robin { "round-robin-uneven" } else { "hash-not-stable" };
            self.bad(sig, format!("{:?} over {:?}: {}", base, members, p));
        }
    }
    fn die(&mut self, rng: &mut Rng) {
        let alive = self.alive();
        if alive.len() < 2 {
            return;
        }
        self.check(rng);
        if self.failed {
            return;
        }
        let i = *rng.pick(&alive);
        let how = rng.below(3);
        self.note(format!("component {} {}", i, ["is killed", "is killed, handle kept", "fails"][how]));
        let comp = self.m.comps[i].comp.take().unwrap();
        match how {
            0 | 1 => {
                let keep = (how == 1).then(|| comp.clone());
                let f = self.sys.target().kill_notify(comp);
                if self.sys.wait(f, rng).is_none() {
                    return self.bad("kill-not-confirmed", format!("killing {} was not confirmed", i));
                }
                self.m.comps[i].comp = keep;
            }
            _ => {
                let id = self.next_id | PANIC_BIT;
                self.own.insert(id);
                self.next_id += 1;
                // only its own unique path leads to it for certain
                let Some(p) = self.m.comps[i].unique.clone() else {
                    self.m.comps[i].comp = Some(comp);
                    return;
                };
                let sender = self.senders[0].clone();
                self.tell(&p, id, &sender);
                let ok = match &self.sys {
                    Sys::Det(d) => {
                        d.settle(rng, 1_000_000);
                        self.w.log.lock().unwrap().iter().any(|e| e.1 == id && e.0 == i)
                    }
                    _ => self.w.wait_for(i, id),
                };
                if !ok {
                    return self.bad("message-lost", format!("message {} to the unique path of {} did not arrive", id, i));
                }
                let end = Instant::now() + PATIENCE;
                while !comp.is_faulty() {
                    if Instant::now() > end {
                        return self.bad("not-faulty", format!("{} did not become faulty", i));
                    }
                    if let Sys::Det(d) = &self.sys {
                        d.settle(rng, 1_000_000);
                    }
                    std::thread::yield_now();
                }
                drop(comp);
            }
        }
        self.m.comps[i].alive = false;
        self.rep.count("deaths", 1);
        self.changed();
    }
}

fn gen_sender(rng: &mut Rng) -> ActorPath {
    let sp = SystemPath::new(Transport::Tcp, std::net::IpAddr::from([10, 0, 0, rng.below(250) as u8 + 1]), rng.range(1, 65535) as u16);
    if rng.chance(1, 2) { sp.into_unique(Uuid::from_u128(rng.next() as u128)).into() } else { NamedPath::with_system(sp, name(rng)).into() }
}

fn net_system(w: Option<Arc<World>>) -> KompactSystem {
    let mut c = KompactConfig::default();
    c.logger(null_logger());
    c.threads(2);
    let nc = kompact_net::NetworkConfig::default().build();
    match w {
        Some(w) => {
            c.system_components(move |p| Dead { ctx: ComponentContext::uninitialised(), ready: Some(p), w: w.clone() }, nc);
        }
        None => {
            c.system_components(DeadletterBox::new, nc);
        }
    }
    c.build().wait().expect("system")
}

fn world(rng: &mut Rng, kind: usize) -> (Sys, Arc<World>) {
    let w = Arc::new(World::default());
    let sys = match kind {
        0 => {
            let w2 = w.clone();
            let pol = *rng.pick(&[Policy::Fifo, Policy::Random]);
            Sys::Det(Box::new(DetSys::build(pol, rng, move |c| {
                let w2 = w2.clone();
                c.system_components(move |p| Dead { ctx: ComponentContext::uninitialised(), ready: Some(p), w: w2.clone() }, LocalDispatcher::new);
            })))
        }
        1 => Sys::Net { target: net_system(Some(w.clone())), remote: None },
        _ => Sys::Net { target: net_system(Some(w.clone())), remote: Some(net_system(None)) },
    };
    (sys, w)
}

fn run_case(rep: &Arc<Report>, prop: &'static str, case: u64, seed: u64) {
    let rng = &mut Rng::new(seed);
    let kind = match case % 16 {
        0 | 1 => 1,
        2 => 2,
        _ => 0,
    };
    let (sys, w) = world(rng, kind);
    let senders = (0..rng.range(1, 6)).map(|_| gen_sender(rng)).collect();
    let mut c = Case {
        rep,
        prop,
        case,
        seed,
        sys,
        w,
        m: Model::default(),
        pending: vec![],
        mixed: false,
        routes: HashMap::new(),
        senders,
        fence: None,
        next_id: 1,
        generation: 0,
        ops: vec![],
        failed: false,
        own: HashSet::new(),
        sig: kind as u64,
    };
    if kind != 0 {
        let i = c.create(rng);
        if c.m.comps[i].unique.is_none() {
            c.register_unique(i, rng);
        }
        if let Some(p) = c.m.comps[i].unique.clone() {
            c.fence = Some((i, p));
        }
    }
    for _ in 0..rng.range(1, 4) {
        c.create(rng);
    }
    let rounds = rng.range(3, if rep.thorough() { 40 } else { 25 });
    let idle_round = if kind == 1 && case % 256 < 2 { rng.below(rounds) } else { usize::MAX };
    for round in 0..rounds {
        if c.failed {
            break;
        }
        if round == idle_round {
            // long enough for the clean-up of dead entries to run
            std::thread::sleep(Duration::from_millis(1700));
            c.rep.count("cleanup_waits", 1);
        }
        for _ in 0..rng.range(1, 4) {
            let weights: &[u32] = if prop == "D01" { &[4, 2, 10, 1, 2] } else { &[3, 1, 8, 4, 2] };
            match rng.weighted(weights) {
                0 if c.m.comps.len() < 12 => {
                    c.create(rng);
                }
                1 => {
                    let a = c.alive();
                    if !a.is_empty() {
                        let i = *rng.pick(&a);
                        c.register_unique(i, rng);
                    }
                }
                3 => c.set_policy(rng),
                4 => c.die(rng),
                _ => c.register_name(rng),
            }
            if c.failed {
                break;
            }
            if rng.chance(1, 4) {
                // sent before the next change, perhaps dealt with after it
                for _ in 0..rng.range(1, 3) {
                    let t = c.pick_target(rng);
                    c.send_to(t, rng);
                }
            }
        }
        if c.failed {
            break;
        }
        c.check(rng);
        let burst = if rng.chance(1, 2) { Some(c.pick_target(rng)) } else { None };
        for _ in 0..rng.range(1, 12) {
            if c.failed {
                break;
            }
            let t = match &burst {
                Some(b) if rng.chance(3, 4) => b.clone(),
                _ => c.pick_target(rng),
            };
            c.send_to(t, rng);
        }
        c.check(rng);
    }
    if rep.wants_sample() && !c.failed {
        rep.sample(json!({"world": kind, "operations": c.ops.iter().take(40).collect::<Vec<_>>(), "names": format!("{:?}", c.m.names)}));
    }
    rep.eval(c.sig, c.m.names.len() >= 2);
    if c.failed {
        return; // what is left of the system may hang
    }
    let Case { sys, m, .. } = c;
    drop(m);
    match sys {
        Sys::Det(d) => {
            let f = d.system.clone().shutdown();
            match d.drive(f, rng) {
                Some(Ok(())) => (),
                o => rep.violation("shutdown-failed", case, format!("{:?}", o.map(|r| r.map_err(|e| e.to_string()))), json!({"seed": seed})),
            }
            let p = take_local_panics();
            if !p.is_empty() {
                rep.violation("library-panicked", case, format!("{:?}", p), json!({"seed": seed}));
            }
        }
        Sys::Net { target, remote } => {
            if let Some(r) = remote {
                let _ = r.shutdown().wait();
            }
            let _ = target.shutdown().wait();
        }
    }
}

/// Several threads fight for names at once.
fn contention(rep: &Arc<Report>, case: u64, seed: u64) {
    let rng = &mut Rng::new(seed);
    let remote_reads = rng.chance(1, 3);
    let w = Arc::new(World::default());
    let target = net_system(Some(w.clone()));
    let remote = remote_reads.then(|| net_system(None));
    let threads = rng.range(2, 4);
    let names = rng.range(1, 3);
    let start = Instant::now();
    let barrier = Arc::new(std::sync::Barrier::new(threads));
    let mut hs = vec![];
    for t in 0..threads {
        let (target, w, barrier, remote) = (target.clone(), w.clone(), barrier.clone(), remote.clone());
        let mut rng = Rng::new(mix(seed, t as u64 + 1));
        hs.push(std::thread::spawn(move || {
            // (name, component, update, ok, from, to) and problems
            let mut ops: Vec<(usize, usize, bool, bool, Duration, Duration)> = vec![];
            let mut bad: Vec<String> = vec![];
            let mut comps = vec![];
            barrier.wait();
            for k in 0..rng.range(2, 6) {
                let idx = t * 100 + k;
                let w2 = w.clone();
                let c = target.create(move || Node { ctx: ComponentContext::uninitialised(), idx, w: w2 });
                target.start(&c);
                let n = rng.below(names);
                let update = rng.chance(1, 3);
                let alias = format!("shared/{}", n);
                let from = start.elapsed();
                let f = if update { target.update_alias_registration(&c, alias.clone()) } else { target.register_by_alias(&c, alias.clone()) };
                let r = f.wait_timeout(PATIENCE);
                let to = start.elapsed();
                match r {
                    Ok(r) => {
                        if let Err(e) = &r
                            && (update || !matches!(e, RegistrationError::DuplicateEntry))
                        {
                            bad.push(format!("alias {} update={}: {:?}", alias, update, e));
                        }
                        ops.push((n, idx, update, r.is_ok(), from, to));
                    }
                    Err(_) => bad.push(format!("alias {} was never answered", alias)),
                }
                // a name of its own: confirmed registrations work at once, whatever the others do
                let own = format!("own/{}/{}", t, k);
                match target.register_by_alias(&c, own.clone()).wait_timeout(PATIENCE) {
                    Ok(Ok(p)) => {
                        let id = 1_000_000 + idx as u64;
                        let via = remote.as_ref().unwrap_or(&target);
                        p.tell_with_sender(id, via, p.clone());
                        if !w.wait_for(idx, id) {
                            bad.push(format!("a message sent after {} was confirmed did not arrive", own));
                        }
                    }
                    o => bad.push(format!("alias {}: {:?}", own, o.is_ok())),
                }
                comps.push(c);
            }
            (ops, bad, comps)
        }));
    }
    let mut ops = vec![];
    let mut keep = vec![];
    for h in hs {
        match h.join() {
            Ok((o, bad, c)) => {
                ops.extend(o);
                keep.extend(c);
                for b in bad {
                    rep.violation("contended-registration", case, b, json!({"seed": seed}));
                }
            }
            Err(_) => rep.violation("library-panicked", case, format!("{:?}", take_panics()), json!({"seed": seed})),
        }
    }
    for n in 0..names {
        let mine: Vec<_> = ops.iter().filter(|o| o.0 == n).collect();
        let ok_regs: Vec<_> = mine.iter().filter(|o| o.3 && !o.2).collect();
        if ok_regs.len() > 1 {
            rep.violation("two-owners", case, format!("registering name {} without update succeeded {} times: {:?}", n, ok_regs.len(), ok_regs), json!({"seed": seed}));
        }
        let ok: Vec<_> = mine.iter().filter(|o| o.3).collect();
        if mine.is_empty() {
            continue;
        }
        if ok.is_empty() {
            rep.violation("no-owner", case, format!("all registrations of name {} failed: {:?}", n, mine), json!({"seed": seed}));
            continue;
        }
        // refused only if some other registration may have come first
        for o in mine.iter().filter(|o| !o.3) {
            if !ok.iter().any(|p| p.4 < o.5) {
                rep.violation("refused-free-name", case, format!("{:?} among {:?}", o, mine), json!({"seed": seed}));
            }
        }
        // a plain registration may not succeed after another one was confirmed
        for o in &ok_regs {
            if ok.iter().any(|p| p.1 != o.1 && p.5 < o.4) {
                rep.violation("taken-name-registered", case, format!("{:?} among {:?}", o, mine), json!({"seed": seed}));
            }
        }
        // the final owner is an operation that no other one certainly followed
        let sp = target.system_path();
        let p: ActorPath = NamedPath::with_system(sp, vec!["shared".into(), n.to_string()]).into();
        let id = 2_000_000 + n as u64;
        p.tell_with_sender(id, remote.as_ref().unwrap_or(&target), p.clone());
        let last: Vec<usize> = ok.iter().filter(|o| !ok.iter().any(|q| q.4 > o.5)).map(|o| o.1).collect();
        let end = Instant::now() + PATIENCE;
        let who = loop {
            let got: Vec<usize> = w.log.lock().unwrap().iter().filter(|e| e.1 == id).map(|e| e.0).collect();
            if !got.is_empty() || Instant::now() > end {
                break got;
            }
            std::thread::sleep(Duration::from_micros(200));
        };
        if who.len() != 1 || !last.contains(&who[0]) {
            rep.violation("wrong-final-owner", case, format!("a message to name {} reached {:?}; possible owners {:?}; {:?}", n, who, last, mine), json!({"seed": seed}));
        }
        rep.count("contended_names", 1);
        rep.count("contended_registrations", mine.len() as u64);
    }
    rep.eval(mix(0xc0, hash_bytes(format!("{:?}", ops.iter().map(|o| (o.0, o.1, o.2, o.3)).collect::<Vec<_>>()).as_bytes())), ops.len() > 1);
    drop(keep);
    if let Some(r) = remote {
        let _ = r.shutdown().wait();
    }
    let _ = target.shutdown().wait();
}

fn guarded_case(rep: &Arc<Report>, case: u64, seed: u64, f: impl FnOnce()) {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
        rep.violation("library-panicked", case, format!("a call into the library panicked: {:?}", take_panics()), json!({"seed": seed}));
    }
    let p = take_panics();
    if !p.is_empty() {
        rep.violation("library-panicked", case, format!("unexpected panics: {:?}", p), json!({"seed": seed}));
    }
}

pub fn d01(rep: &Arc<Report>) {
    rep.rule("a case is one history of registrations, updates, sends and deaths on one system (local dispatcher under a controlled scheduler, network dispatcher, or messages from a second system), or several threads fighting for names; distinct by the operations");
    rep.assume("messages from another system to unregistered paths may be dropped instead of reaching the deadletter box; registering a name whose owner died without update may succeed or fail");
    rep.run_cases(8, 1.0, u64::MAX, |rep, case, seed| {
        guarded_case(rep, case, seed, || if case % 16 == 3 { contention(rep, case, seed) } else { run_case(rep, "D01", case, seed) });
    });
}
pub fn d02(rep: &Arc<Report>) {
    rep.rule("a case is one history of memberships, policies and routed messages on one system (local dispatcher under a controlled scheduler, network dispatcher, or messages from a second system); distinct by the operations");
    rep.assume("a member that died may still be selected until its entry is cleaned up (the message is then lost); a marker below a registered actor is not specified; every registered name below the prefix counts as one member; any registration below the prefix counts as a change of membership");
    rep.run_cases(8, 1.0, u64::MAX, |rep, case, seed| guarded_case(rep, case, seed, || run_case(rep, "D02", case, seed)));
}
