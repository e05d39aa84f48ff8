//! S05: received messages reach the branch of their type. C15: references and replies.
use crate::util::*;
use kompact::prelude::*;
use serde_json::json;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const T: Duration = Duration::from_secs(20);

// ------------------------------------------------------------------ message types

const M1_ID: SerId = 41_101;
const M1_ALT_ID: SerId = 41_102;
const M2_ID: SerId = 41_103;
const UNKNOWN: [SerId; 3] = [41_104, 1, u64::MAX];

#[derive(Debug, Clone, PartialEq)]
struct M1 {
    a: u64,
    b: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq)]
struct M2(u32, String);

fn put_m1(m: &M1, key: u8, buf: &mut dyn BufMut) {
    buf.put_u64(m.a);
    buf.put_u16(m.b.len() as u16);
    for x in &m.b {
        buf.put_u8(x ^ key);
    }
}
fn get_m1(buf: &mut dyn Buf, key: u8) -> Result<M1, SerError> {
    if buf.remaining() < 10 {
        return Err(SerError::invalid_data("short"));
    }
    let a = buf.get_u64();
    let n = buf.get_u16() as usize;
    if buf.remaining() < n {
        return Err(SerError::invalid_data("short"));
    }
    let b = (0..n).map(|_| buf.get_u8() ^ key).collect();
    Ok(M1 { a, b })
}
impl Serialisable for M1 {
    fn ser_id(&self) -> SerId {
        M1_ID
    }
    fn size_hint(&self) -> Option<usize> {
        Some(10 + self.b.len())
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        put_m1(self, 0, buf);
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn std::any::Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}
impl Deserialiser<M1> for M1 {
    const SER_ID: SerId = M1_ID;
    fn deserialise(buf: &mut dyn Buf) -> Result<M1, SerError> {
        get_m1(buf, 0)
    }
}
/// another format of the same type
#[derive(Debug, Clone)]
struct M1Alt;
impl Serialiser<M1> for M1Alt {
    fn ser_id(&self) -> SerId {
        M1_ALT_ID
    }
    fn size_hint(&self) -> Option<usize> {
        None
    }
    fn serialise(&self, m: &M1, buf: &mut dyn BufMut) -> Result<(), SerError> {
        put_m1(m, 0x5A, buf);
        Ok(())
    }
}
impl Deserialiser<M1> for M1Alt {
    const SER_ID: SerId = M1_ALT_ID;
    fn deserialise(buf: &mut dyn Buf) -> Result<M1, SerError> {
        get_m1(buf, 0x5A)
    }
}
struct M2Ser;
impl Deserialiser<M2> for M2Ser {
    const SER_ID: SerId = M2_ID;
    fn deserialise(buf: &mut dyn Buf) -> Result<M2, SerError> {
        if buf.remaining() < 5 {
            return Err(SerError::invalid_data("short"));
        }
        let x = buf.get_u32();
        let n = buf.get_u8() as usize;
        if buf.remaining() < n {
            return Err(SerError::invalid_data("short"));
        }
        let mut v = vec![0; n];
        buf.copy_to_slice(&mut v);
        String::from_utf8(v).map(|s| M2(x, s)).map_err(|_| SerError::invalid_data("text"))
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Val {
    N(u64),
    S(String),
    One(M1),
    /// M1 through its other format
    OneAlt(M1),
    Two(M2),
}
impl Val {
    fn make(rng: &mut Rng) -> Val {
        let m1 = |rng: &mut Rng| {
            let n = rng.below(30);
            M1 { a: rng.next(), b: rng.bytes(n) }
        };
        match rng.below(5) {
            0 => Val::N(rng.next()),
            1 => Val::S((0..rng.below(12)).map(|_| *rng.pick(&['a', 'ß', '∞', '\n', '0'])).collect()),
            2 => Val::One(m1(rng)),
            3 => Val::OneAlt(m1(rng)),
            _ => Val::Two(M2(rng.next() as u32, (0..rng.below(20)).map(|_| *rng.pick(&['x', 'ü'])).collect())),
        }
    }
    fn id(&self) -> SerId {
        match self {
            Val::N(_) => <u64 as Deserialiser<u64>>::SER_ID,
            Val::S(_) => <String as Deserialiser<String>>::SER_ID,
            Val::One(_) => M1_ID,
            Val::OneAlt(_) => M1_ALT_ID,
            Val::Two(_) => M2_ID,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v: Vec<u8> = vec![];
        match self {
            Val::N(n) => n.serialise(&mut v).unwrap(),
            Val::S(s) => s.serialise(&mut v).unwrap(),
            Val::One(m) => put_m1(m, 0, &mut v),
            Val::OneAlt(m) => put_m1(m, 0x5A, &mut v),
            Val::Two(m) => {
                v.extend_from_slice(&m.0.to_be_bytes());
                v.push(m.1.len() as u8);
                v.extend_from_slice(m.1.as_bytes());
            }
        }
        v
    }
    fn boxed(&self) -> Box<dyn Serialisable> {
        match self {
            Val::N(n) => Box::new(*n),
            Val::S(s) => Box::new(s.clone()),
            Val::One(m) => Box::new(m.clone()),
            Val::OneAlt(m) => (m.clone(), M1Alt).into(),
            Val::Two(_) => unreachable!(),
        }
    }
    /// What the deserialiser with this id makes of these bytes.
    fn decode(id: SerId, mut b: &[u8]) -> Option<Val> {
        let r: Result<Val, SerError> = if id == M1_ID {
            get_m1(&mut b, 0).map(Val::One)
        } else if id == M1_ALT_ID {
            get_m1(&mut b, 0x5A).map(Val::OneAlt)
        } else if id == M2_ID {
            M2Ser::deserialise(&mut b).map(Val::Two)
        } else if id == <u64 as Deserialiser<u64>>::SER_ID {
            u64::deserialise(&mut b).map(Val::N)
        } else if id == <String as Deserialiser<String>>::SER_ID {
            String::deserialise(&mut b).map(Val::S)
        } else {
            return None;
        };
        r.ok()
    }
}
#[derive(Debug, Clone, PartialEq)]
enum Out {
    /// the branch taken and its value
    Hit(u8, Val),
    Err(&'static str),
    Default,
    Panic,
}
fn err_kind<X>(e: &UnpackError<X>) -> &'static str {
    match e {
        UnpackError::NoIdMatch(_) => "NoIdMatch",
        UnpackError::NoCast(_) => "NoCast",
        UnpackError::DeserError(_) => "DeserError",
    }
}
/// The branches of one match: id and what they do with the value.
type Arms = &'static [SerId];
const U64_ID: SerId = <u64 as Deserialiser<u64>>::SER_ID;
const STR_ID: SerId = <String as Deserialiser<String>>::SER_ID;

fn form0(m: NetMessage) -> Out {
    match_deser! {
        m {
            msg(x): u64 => Out::Hit(0, Val::N(x)),
            msg(x): String [using String] => Out::Hit(1, Val::S(x)),
            msg(x): M1 => Out::Hit(2, Val::One(x)),
            msg(x): M1 [using M1Alt] => Out::Hit(3, Val::OneAlt(x)),
            msg(x): M2 [using M2Ser] => Out::Hit(4, Val::Two(x)),
            err(e) => Out::Err(err_kind(&e)),
            default(_) => Out::Default,
        }
    }
}
fn form1(m: NetMessage) -> Out {
    match_deser! {
        (m) {
            default(_) => { Out::Default },
            msg(M2(a, b)): M2 [using M2Ser] => { let r = M2(a, b); Out::Hit(0, Val::Two(r)) },
            err(e) => Out::Err(err_kind(&e)),
            msg(x): M1 [using M1Alt] => Out::Hit(1, Val::OneAlt(x)),
            msg(M1 { a, b }): M1 => Out::Hit(2, Val::One(M1 { a, b }))
        }
    }
}
fn form2(m: NetMessage) -> Out {
    match_deser! {
        (Some(m).unwrap()) {
            err(e) => { Out::Err(err_kind(&e)) },
            msg(x): M1 [using M1Alt] => { Out::Hit(0, Val::OneAlt(x)) },
            msg(x): u64 => { Out::Hit(1, Val::N(x)) },
        }
    }
}
fn form3(m: NetMessage) -> Out {
    match_deser! {
        m {
            msg(x): String => Out::Hit(0, Val::S(x)),
            msg(x): M2 [using M2Ser] => Out::Hit(1, Val::Two(x)),
            default(_) => Out::Default
        }
    }
}
fn form4(m: NetMessage) -> Out {
    match_deser! { m { msg(x): M1 => Out::Hit(0, Val::One(x)) } }
}
/// on the data alone, as needed to keep sender and receiver
fn form5(m: NetMessage) -> Out {
    let NetMessage { data, .. } = m;
    match_deser! {
        data {
            msg(x): M1 => Out::Hit(0, Val::One(x)),
            msg(x): String => Out::Hit(1, Val::S(x)),
            err(e) => Out::Err(err_kind(&e)),
            default(_) => Out::Default,
        }
    }
}
type Form = (fn(NetMessage) -> Out, Arms, bool, bool);
const FORMS: [Form; 6] = [
    (form0, &[U64_ID, STR_ID, M1_ID, M1_ALT_ID, M2_ID], true, true),
    (form1, &[M2_ID, M1_ALT_ID, M1_ID], true, true),
    (form2, &[M1_ALT_ID, U64_ID], true, false),
    (form3, &[STR_ID, M2_ID], false, true),
    (form4, &[M1_ID], false, false),
    (form5, &[M1_ID, STR_ID], true, true),
];

#[derive(Clone, Debug)]
enum Load {
    Bytes(Vec<u8>),
    Boxed(Val),
}
#[derive(Clone, Debug)]
struct Spec {
    id: SerId,
    load: Load,
}
impl Spec {
    fn make(rng: &mut Rng) -> Spec {
        let v = Val::make(rng);
        let id = match rng.below(8) {
            0 => *rng.pick(&UNKNOWN),
            1 => Val::make(rng).id(),
            _ => v.id(),
        };
        if rng.chance(1, 3) {
            return Spec { id, load: Load::Boxed(v) };
        }
        let mut b = v.bytes();
        match rng.below(6) {
            0 => b.truncate(rng.below(b.len() + 1)),
            1 => {
                let n = rng.below(20);
                b = rng.bytes(n);
            }
            _ => {}
        }
        Spec { id, load: Load::Bytes(b) }
    }
    fn message(&self, from: &ActorPath, to: &ActorPath) -> NetMessage {
        match &self.load {
            Load::Bytes(b) => NetMessage::with_bytes(self.id, from.clone(), to.clone(), bytes::Bytes::from(b.clone())),
            Load::Boxed(v) => NetMessage::with_box(self.id, from.clone(), to.clone(), v.boxed_any()),
        }
    }
    /// What the deserialiser of this id gives.
    fn unpacked(&self) -> Result<Val, &'static str> {
        match &self.load {
            Load::Bytes(b) => Val::decode(self.id, b).ok_or("DeserError"),
            Load::Boxed(v) => v.as_type_of(self.id).ok_or("NoCast"),
        }
    }
}
impl Val {
    fn boxed_any(&self) -> Box<dyn Serialisable> {
        match self {
            Val::Two(m) => Box::new(m.clone()),
            Val::OneAlt(m) => Box::new(m.clone()),
            v => v.boxed(),
        }
    }
    /// The value if it has the type that belongs to this id.
    fn as_type_of(&self, id: SerId) -> Option<Val> {
        match (self, id) {
            (Val::One(m) | Val::OneAlt(m), M1_ID) => Some(Val::One(m.clone())),
            (Val::One(m) | Val::OneAlt(m), M1_ALT_ID) => Some(Val::OneAlt(m.clone())),
            (Val::N(_), U64_ID) | (Val::S(_), STR_ID) | (Val::Two(_), M2_ID) => Some(self.clone()),
            _ => None,
        }
    }
}
impl Serialisable for M2 {
    fn ser_id(&self) -> SerId {
        M2_ID
    }
    fn size_hint(&self) -> Option<usize> {
        None
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_slice(&Val::Two(self.clone()).bytes());
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn std::any::Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}

fn quietly<R>(f: impl FnOnce() -> R) -> Option<R> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    QUIET.with(|q| q.set(false));
    let _ = take_local_panics();
    r
}

struct Fails<'a> {
    rep: &'a Arc<Report>,
    case: u64,
    seed: u64,
    failed: bool,
}
impl Fails<'_> {
    fn fail(&mut self, sig: &str, detail: String) {
        if !self.failed {
            self.rep.violation(sig, self.case, detail, json!({"seed": self.seed}));
        }
        self.failed = true;
    }
}

/// Boxed values are downcast to what `local` gave.
fn check_unpack<V: 'static, D: Deserialiser<V>>(fx: &mut Fails, s: &Spec, from: &ActorPath, to: &ActorPath, wrap: impl Fn(V) -> Val) {
    let same = s.id == D::SER_ID;
    let want = s.unpacked();
    let session = SessionId::new_unique();
    // consuming
    for way in 0..3 {
        let mut m = s.message(from, to);
        m.set_session(session);
        let r: Result<Val, UnpackError<NetMessage>> = match way {
            0 => m.try_deserialise::<V, D>().map(&wrap),
            1 => match m.try_into_deserialised::<V, D>() {
                Ok(d) => {
                    if &d.sender != from || &d.receiver != to {
                        fx.fail("header", format!("sender {} and receiver {} became {} and {}", from, to, d.sender, d.receiver));
                    }
                    Ok(wrap(d.content))
                }
                Err(e) => Err(e),
            },
            _ => match m.data.try_deserialise::<V, D>() {
                Ok(v) => Ok(wrap(v)),
                Err(e) => Err(match e {
                    UnpackError::NoIdMatch(data) => UnpackError::NoIdMatch(NetMessage { sender: from.clone(), receiver: to.clone(), data, session: Some(session) }),
                    UnpackError::NoCast(d) => UnpackError::NoCast(d),
                    UnpackError::DeserError(d) => UnpackError::DeserError(d),
                }),
            },
        };
        match r {
            Ok(v) if same && want == Ok(v.clone()) => fx.rep.count("values unpacked", 1),
            Err(UnpackError::NoIdMatch(again)) if !same => {
                // unaltered
                if again.sender() != from || &again.receiver != to || again.session() != Some(session) || *again.ser_id() != s.id {
                    fx.fail("returned-message-altered", format!("{:?} came back as {:?}", s, again));
                }
                let got = form0(again);
                let expect = expected(&FORMS[0], s);
                if got != expect {
                    fx.fail("returned-message-altered", format!("{:?} came back and then gave {:?} instead of {:?}", s, got, expect));
                }
                fx.rep.count("messages handed back", 1);
            }
            Err(e) if same && want == Err(err_kind(&e)) => fx.rep.count("messages refused", 1),
            Ok(v) => fx.fail("wrong-value", format!("{:?} read with id {} (way {}) gave {:?} instead of {:?}", s, D::SER_ID, way, v, want)),
            Err(e) => fx.fail("wrong-error", format!("{:?} read with id {} (way {}) gave {} instead of {:?}", s, D::SER_ID, way, err_kind(&e), want)),
        }
    }
}
fn expected(f: &Form, s: &Spec) -> Out {
    match f.1.iter().position(|i| *i == s.id) {
        Some(i) => match s.unpacked() {
            Ok(v) => Out::Hit(i as u8, v),
            Err(k) if f.2 => Out::Err(k),
            Err(_) => Out::Panic,
        },
        None if f.3 => Out::Default,
        None => Out::Panic,
    }
}

fn match_case(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut fx = Fails { rep, case, seed, failed: false };
    let from: ActorPath = format!("tcp://127.0.0.1:{}/from/{}", rng.range(1, 60000), rng.below(100)).parse().unwrap();
    let to: ActorPath = format!("tcp://127.0.0.1:{}/to", rng.range(1, 60000)).parse().unwrap();
    let mut sig = hash_bytes(b"match");
    for _ in 0..20 {
        let s = Spec::make(rng);
        sig = mix(sig, hash_bytes(format!("{:?}", s).as_bytes()));
        for (i, f) in FORMS.iter().enumerate() {
            let want = expected(f, &s);
            let m = s.message(&from, &to);
            let got = if want == Out::Panic { quietly(|| (f.0)(m)).unwrap_or(Out::Panic) } else { (f.0)(m) };
            if got != want {
                fx.fail("wrong-branch", format!("match {} on {:?} gave {:?} instead of {:?}", i, s, got, want));
            }
            rep.count(
                match want {
                    Out::Hit(..) => "matches taking a branch",
                    Out::Err(_) => "matches reporting an error",
                    Out::Default => "matches taking the default",
                    Out::Panic => "matches without an arm",
                },
                1,
            );
        }
        check_unpack::<u64, u64>(&mut fx, &s, &from, &to, Val::N);
        check_unpack::<String, String>(&mut fx, &s, &from, &to, Val::S);
        check_unpack::<M1, M1>(&mut fx, &s, &from, &to, Val::One);
        check_unpack::<M1, M1Alt>(&mut fx, &s, &from, &to, Val::OneAlt);
        check_unpack::<M2, M2Ser>(&mut fx, &s, &from, &to, Val::Two);
        // copies
        if let Load::Bytes(_) = s.load {
            let m = s.message(&from, &to);
            match m.try_clone() {
                Ok(c) => {
                    let (a, b) = (form0(m), form0(c));
                    if a != b {
                        fx.fail("copy-differs", format!("{:?}: {:?} and {:?}", s, a, b));
                    }
                }
                Err(e) => fx.fail("copy-differs", format!("{:?} cannot be copied: {:?}", s, e)),
            }
        }
    }
    rep.eval(sig, true);
}

// ------------------------------------------------------------------ NetworkActor

type Seen = Arc<Mutex<Vec<(Option<ActorPath>, Result<M1, (&'static str, SerId)>)>>>;
macro_rules! net_actor {
    ($n:ident, $d:ty, $report:expr) => {
        #[derive(ComponentDefinition)]
        struct $n {
            ctx: ComponentContext<Self>,
            seen: Seen,
        }
        ignore_lifecycle!($n);
        impl NetworkActor for $n {
            type Message = M1;
            type Deserialiser = $d;
            fn receive(&mut self, sender: Option<ActorPath>, msg: M1) -> HandlerResult {
                self.seen.lock().unwrap().push((sender, Ok(msg)));
                Handled::OK
            }
            fn on_error(&mut self, e: UnpackError<NetMessage>) -> HandlerResult {
                let k = err_kind(&e);
                let (from, id) = match e {
                    UnpackError::NoIdMatch(m) => (Some(m.sender().clone()), *m.ser_id()),
                    _ => (None, 0),
                };
                self.seen.lock().unwrap().push((from, Err((k, id))));
                Handled::OK
            }
        }
    };
}
net_actor!(NaOwn, M1, true);
net_actor!(NaAlt, M1Alt, true);
/// the default handling of errors
#[derive(ComponentDefinition)]
struct NaQuiet {
    ctx: ComponentContext<Self>,
    seen: Seen,
}
ignore_lifecycle!(NaQuiet);
impl NetworkActor for NaQuiet {
    type Message = M1;
    type Deserialiser = M1;
    fn receive(&mut self, sender: Option<ActorPath>, msg: M1) -> HandlerResult {
        self.seen.lock().unwrap().push((sender, Ok(msg)));
        Handled::OK
    }
}

fn actor_case(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut fx = Fails { rep, case, seed, failed: false };
    let mut c = KompactConfig::default();
    c.logger(null_logger());
    c.threads(rng.range(1, 3));
    let sys = c.build().wait().expect("system");
    let seen: Vec<Seen> = (0..3).map(|_| Seen::default()).collect();
    let s = seen.clone();
    let a = sys.create(|| NaOwn { ctx: ComponentContext::uninitialised(), seen: s[0].clone() });
    let b = sys.create(|| NaAlt { ctx: ComponentContext::uninitialised(), seen: s[1].clone() });
    let d = sys.create(|| NaQuiet { ctx: ComponentContext::uninitialised(), seen: s[2].clone() });
    let mut paths: Vec<ActorPath> = vec![];
    macro_rules! up {
        ($x:expr, $n:expr) => {
            paths.push(sys.register_by_alias(&$x, $n).wait_timeout(T).expect("register").expect("register"));
            sys.start_notify(&$x).wait_timeout(T).expect("start");
        };
    }
    up!(a, "own");
    up!(b, "alt");
    up!(d, "quiet");
    let refs = [a.actor_ref(), b.actor_ref(), d.actor_ref()];
    let dyns = [a.actor_ref().dyn_ref(), b.actor_ref().dyn_ref(), d.actor_ref().dyn_ref()];
    let from: Vec<ActorPath> = (0..3).map(|i| NamedPath::with_system(sys.system_path(), vec![format!("from{}", i)]).into()).collect();
    let ids = [M1_ID, M1_ALT_ID, M1_ID];
    let mut want: Vec<Vec<(Option<ActorPath>, Result<M1, (&'static str, SerId)>)>> = vec![vec![]; 3];
    let mut sig = hash_bytes(b"actor");
    let n = rng.range(20, 80);
    for _ in 0..n {
        let t = rng.below(3);
        let f = rng.pick(&from).clone();
        sig = mix(sig, t as u64);
        if rng.chance(1, 4) {
            let m = M1 { a: rng.next(), b: rng.bytes(5) };
            refs[t].tell(m.clone());
            want[t].push((None, Ok(m)));
            rep.count("local messages", 1);
            continue;
        }
        let sp = Spec::make(rng);
        let id_matches = sp.id == ids[t];
        // messages through the dispatcher would overtake local ones or be overtaken
        dyns[t].tell(sp.message(&f, &paths[t]));
        let res = if id_matches { sp.unpacked().map(|v| match v {
            Val::One(m) | Val::OneAlt(m) => m,
            _ => unreachable!(),
        }) } else { Err("NoIdMatch") };
        match res {
            Ok(m) => want[t].push((Some(f), Ok(m))),
            Err(k) if t < 2 => want[t].push((if k == "NoIdMatch" { Some(f) } else { None }, Err((k, if k == "NoIdMatch" { sp.id } else { 0 })))),
            Err(_) => {}
        }
        rep.count("network messages", 1);
    }
    let end = Instant::now() + T;
    while (0..3).any(|i| seen[i].lock().unwrap().len() < want[i].len()) && Instant::now() < end {
        std::thread::sleep(Duration::from_millis(1));
    }
    for i in 0..3 {
        let got = seen[i].lock().unwrap().clone();
        if got != want[i] {
            let k = (0..).find(|k| got.get(*k) != want[i].get(*k)).unwrap();
            fx.fail("network-actor", format!("message {} to actor {}: handled {:?} instead of {:?} ({} and {} in all)", k, i, got.get(k), want[i].get(k), got.len(), want[i].len()));
        }
    }
    // and through the dispatcher: answers of all ways of sending are the same
    let before = want.iter().map(|w| w.len()).sum::<usize>();
    let mut extra = 0;
    for t in 0..3 {
        let m = M1 { a: rng.next(), b: rng.bytes(9) };
        let f = rng.pick(&from).clone();
        if t == 1 {
            paths[t].tell_with_sender((m.clone(), M1Alt), &sys, f.clone());
        } else {
            paths[t].tell_with_sender(m.clone(), &sys, f.clone());
        }
        want[t].push((Some(f), Ok(m)));
        extra += 1;
    }
    let end = Instant::now() + T;
    while seen.iter().map(|s| s.lock().unwrap().len()).sum::<usize>() < before + extra && Instant::now() < end {
        std::thread::sleep(Duration::from_millis(1));
    }
    for i in 0..3 {
        if !fx.failed && *seen[i].lock().unwrap() != want[i] {
            fx.fail("network-actor", format!("actor {} got {:?} instead of {:?}", i, seen[i].lock().unwrap().last(), want[i].last()));
        }
    }
    rep.eval(sig, true);
    drop((a, b, d, refs, dyns));
    let _ = sys.shutdown().wait_timeout(T);
    let p = take_panics();
    if !p.is_empty() {
        fx.fail("panic", format!("{:?}", p));
    }
}
pub fn s05(rep: &Arc<Report>) {
    rep.rule("one case: twenty messages (known and unknown ids, valid, damaged and foreign contents, bytes or boxed values) through six match_deser! forms and every try_deserialise variant, or a history of messages to three NetworkActors; distinct by contents");
    rep.assume("no two branches of a match have the same id");
    rep.hang_limit(Duration::from_secs(100));
    rep.run_cases(6, 1.0, u64::MAX, |rep, case, seed| {
        if case % 8 == 0 {
            actor_case(rep, case, seed)
        } else {
            match_case(rep, case, seed)
        }
    });
}

// ------------------------------------------------------------------ C15

#[derive(Debug, Clone, PartialEq)]
struct Reply {
    client: usize,
    n: u64,
    by: usize,
    copy: u8,
    body: Vec<u8>,
}
#[derive(Debug)]
enum CMsg {
    R(Reply),
    Conv(Reply),
    From(Reply),
    Ask(Vec<Order>),
}
impl From<Reply> for CMsg {
    fn from(r: Reply) -> Self {
        CMsg::From(r)
    }
}
fn conv(r: Reply) -> CMsg {
    CMsg::Conv(r)
}
/// How an answer is to come back.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Way {
    Sender,
    Strong,
    Rec,
    RecConv,
    Bare,
}
/// One request a client is told to make.
#[derive(Debug, Clone)]
struct Order {
    n: u64,
    way: Way,
    /// how the reference to answer to is obtained
    made: usize,
    hops: Vec<usize>,
    copies: u8,
    late: bool,
    via: usize,
}
#[derive(Debug, Clone)]
struct Rq {
    client: usize,
    n: u64,
    hops: Vec<usize>,
    at: usize,
    copies: u8,
    late: bool,
    body: Vec<u8>,
}
#[derive(Debug)]
enum SMsg {
    Ws(WithSender<Rq, CMsg>),
    Wss(WithSenderStrong<Rq, CMsg>),
    Wr(WithRecipient<Rq, Reply>),
    Bare(Rq, Recipient<Reply>),
    Flush,
    Tagged(u64),
}
#[derive(Debug)]
struct Tag(u64);
impl From<Tag> for SMsg {
    fn from(t: Tag) -> Self {
        SMsg::Tagged(t.0)
    }
}
fn tag_other(t: Tag) -> SMsg {
    SMsg::Tagged(t.0 ^ (1 << 63))
}
/// Where references to all servers can be found.
#[derive(Default)]
struct Servers {
    weak: Mutex<Vec<ActorRef<SMsg>>>,
}
#[derive(Default)]
struct Book {
    /// client that handled it, form, reply
    got: Mutex<Vec<(usize, &'static str, Reply)>>,
    cv: Condvar,
    bad: Mutex<Vec<String>>,
    tags: Mutex<Vec<(usize, u64)>>,
    held: AtomicUsize,
}
#[derive(ComponentDefinition)]
struct Server {
    ctx: ComponentContext<Self>,
    idx: usize,
    servers: Arc<Servers>,
    book: Arc<Book>,
    late: Vec<SMsg>,
}
ignore_lifecycle!(Server);
impl Server {
    fn answer(&self, rq: &Rq, copy: u8) -> Reply {
        Reply { client: rq.client, n: rq.n, by: self.idx, copy, body: rq.body.clone() }
    }
    fn reply(&self, m: &SMsg) {
        match m {
            SMsg::Ws(r) => (0..r.copies).for_each(|i| r.reply(CMsg::R(self.answer(r.content(), i)))),
            SMsg::Wss(r) => (0..r.copies).for_each(|i| r.reply(CMsg::R(self.answer(r, i)))),
            SMsg::Wr(r) => (0..r.copies).for_each(|i| r.reply(self.answer(r.content(), i))),
            SMsg::Bare(rq, r) => (0..rq.copies).for_each(|i| r.tell(self.answer(rq, i))),
            _ => {}
        }
    }
}
impl Actor for Server {
    type Message = SMsg;
    fn receive_local(&mut self, mut m: SMsg) -> HandlerResult {
        // requests travel on with the reference to answer to
        let rq = match &mut m {
            SMsg::Ws(r) => r.content().clone(),
            SMsg::Wss(r) => r.content().clone(),
            SMsg::Wr(r) => r.content().clone(),
            SMsg::Bare(r, _) => r.clone(),
            SMsg::Flush => {
                for m in std::mem::take(&mut self.late) {
                    self.reply(&m);
                    self.book.held.fetch_sub(1, Ordering::SeqCst);
                }
                return Handled::OK;
            }
            SMsg::Tagged(t) => {
                self.book.tags.lock().unwrap().push((self.idx, *t));
                self.book.cv.notify_all();
                return Handled::OK;
            }
        };
        if rq.hops.get(rq.at) != Some(&self.idx) {
            self.book.bad.lock().unwrap().push(format!("server {} got request {}/{} which goes {:?} at {}", self.idx, rq.client, rq.n, rq.hops, rq.at));
        }
        if rq.at + 1 < rq.hops.len() {
            let next = self.servers.weak.lock().unwrap()[rq.hops[rq.at + 1]].clone();
            let mut rq2 = rq;
            rq2.at += 1;
            next.tell(match m {
                SMsg::Ws(r) => SMsg::Ws(WithSender::new(rq2, r.sender().clone())),
                SMsg::Wss(r) => SMsg::Wss(WithSenderStrong::new(rq2, r.sender().clone())),
                SMsg::Wr(r) => SMsg::Wr(WithRecipient::new(rq2, r.sender().clone())),
                SMsg::Bare(_, r) => SMsg::Bare(rq2, r),
                m => m,
            });
        } else if rq.late {
            self.book.held.fetch_add(1, Ordering::SeqCst);
            self.late.push(m);
        } else {
            self.reply(&m);
        }
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
#[derive(ComponentDefinition)]
struct Client {
    ctx: ComponentContext<Self>,
    idx: usize,
    own: Option<ActorRef<CMsg>>,
    servers: Arc<Servers>,
    book: Arc<Book>,
    alive: Arc<AtomicBool>,
}
ignore_lifecycle!(Client);
impl Drop for Client {
    fn drop(&mut self) {
        self.alive.store(false, Ordering::SeqCst);
    }
}
fn body(c: usize, n: u64) -> Vec<u8> {
    Rng::new(((c as u64) << 32) ^ n).bytes((n % 9) as usize)
}
impl Client {
    fn note(&self, form: &'static str, r: Reply) {
        self.book.got.lock().unwrap().push((self.idx, form, r));
        self.book.cv.notify_all();
    }
}
impl Actor for Client {
    type Message = CMsg;
    fn receive_local(&mut self, m: CMsg) -> HandlerResult {
        match m {
            CMsg::R(r) => self.note("direct", r),
            CMsg::Conv(r) => self.note("convert", r),
            CMsg::From(r) => self.note("from", r),
            CMsg::Ask(orders) => {
                for o in orders {
                    let rq = Rq { client: self.idx, n: o.n, hops: o.hops.clone(), at: 0, copies: o.copies, late: o.late, body: body(self.idx, o.n) };
                    let me = self.own.clone().unwrap();
                    let m = match o.way {
                        Way::Sender => SMsg::Ws(match o.made % 3 {
                            0 => WithSender::from(rq, self),
                            1 => WithSender::from(rq, &self.ctx),
                            _ => WithSender::new(rq, me),
                        }),
                        Way::Strong => SMsg::Wss(match o.made % 3 {
                            0 => WithSenderStrong::from(rq, self),
                            1 => WithSenderStrong::new(rq, self.ctx.actor_ref().hold().expect("live")),
                            _ => WithSenderStrong::from(rq, &me),
                        }),
                        Way::Rec => SMsg::Wr(match o.made % 3 {
                            0 => WithRecipient::from(rq, self),
                            1 => WithRecipient::new(rq, self.ctx.recipient()),
                            _ => WithRecipient::new(rq, me.recipient()),
                        }),
                        Way::RecConv => SMsg::Wr(match o.made % 2 {
                            0 => WithRecipient::from_convert(rq, self, conv),
                            _ => WithRecipient::new(rq, me.recipient_with(conv)),
                        }),
                        Way::Bare => SMsg::Bare(rq, match o.made % 3 {
                            0 => me.recipient_with(conv).recipient(),
                            1 => me.recipient_with(conv).clone(),
                            _ => self.actor_ref().recipient_with(conv),
                        }),
                    };
                    let s = self.servers.weak.lock().unwrap()[o.hops[0]].clone();
                    match o.via % 3 {
                        0 => s.tell(m),
                        1 => s.hold().expect("live").tell(m),
                        _ => s.recipient_with(|m: SMsg| m).tell(m),
                    }
                }
            }
        }
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
fn form_of(w: Way) -> &'static str {
    match w {
        Way::Sender | Way::Strong => "direct",
        Way::Rec => "from",
        Way::RecConv | Way::Bare => "convert",
    }
}

fn ref_case(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut fx = Fails { rep, case, seed, failed: false };
    let mut c = KompactConfig::default();
    c.logger(null_logger());
    c.threads(rng.range(1, 4));
    let sys = c.build().wait().expect("system");
    let book = Arc::new(Book::default());
    let servers = Arc::new(Servers::default());
    let (ns, nc) = (rng.range(1, 4), rng.range(1, 5));
    enum AnyServer {
        Typed(Arc<Component<Server>>),
        Erased(Arc<dyn kompact::component::AbstractComponent<Message = SMsg>>),
    }
    let mut sv = vec![];
    for idx in 0..ns {
        let d = Server { ctx: ComponentContext::uninitialised(), idx, servers: servers.clone(), book: book.clone(), late: vec![] };
        let (s, r) = if rng.chance(1, 2) {
            let e = sys.create_erased(Box::new(d));
            sys.start_notify(&e).wait_timeout(T).expect("start");
            let r = e.actor_ref();
            (AnyServer::Erased(e), r)
        } else {
            let e = if rng.chance(1, 3) { sys.create_dedicated(move || d) } else { sys.create(move || d) };
            sys.start_notify(&e).wait_timeout(T).expect("start");
            let r = e.actor_ref();
            (AnyServer::Typed(e), r)
        };
        servers.weak.lock().unwrap().push(r);
        sv.push(s);
    }
    let alive: Vec<Arc<AtomicBool>> = (0..nc).map(|_| Arc::new(AtomicBool::new(true))).collect();
    let mut clients: Vec<Option<Arc<Component<Client>>>> = vec![];
    for idx in 0..nc {
        let (s2, b2, al) = (servers.clone(), book.clone(), alive[idx].clone());
        let cl = sys.create(move || Client { ctx: ComponentContext::uninitialised(), idx, own: None, servers: s2, book: b2, alive: al });
        let r = cl.actor_ref();
        cl.on_definition(|d| d.own = Some(r));
        sys.start_notify(&cl).wait_timeout(T).expect("start");
        clients.push(Some(cl));
    }
    // 1. requests
    let mut want: HashMap<(usize, u64), Order> = HashMap::new();
    let mut next = vec![0u64; nc];
    let mut sig = hash_bytes(b"refs");
    let batches = rng.range(1, 12);
    for _ in 0..batches {
        let cl = rng.below(nc);
        let orders: Vec<Order> = (0..rng.range(1, 8))
            .map(|_| {
                let o = Order {
                    n: next[cl],
                    way: *rng.pick(&[Way::Sender, Way::Strong, Way::Rec, Way::RecConv, Way::Bare]),
                    made: rng.below(6),
                    hops: (0..rng.range(1, 4)).map(|_| rng.below(ns)).collect(),
                    copies: *rng.pick(&[1u8, 1, 1, 2, 3]),
                    late: rng.chance(1, 4),
                    via: rng.below(3),
                };
                next[cl] += 1;
                want.insert((cl, o.n), o.clone());
                o
            })
            .collect();
        sig = mix(sig, hash_bytes(format!("{:?}", orders).as_bytes()));
        clients[cl].as_ref().unwrap().actor_ref().tell(CMsg::Ask(orders));
    }
    // 2. references and equality
    for (i, s) in sv.iter().enumerate() {
        let r = servers.weak.lock().unwrap()[i].clone();
        let again = match s {
            AnyServer::Typed(c) => c.actor_ref(),
            AnyServer::Erased(c) => c.actor_ref(),
        };
        let (strong, dynr) = (r.hold().expect("live"), r.dyn_ref());
        let rec: Recipient<Tag> = r.recipient();
        for (j, o) in servers.weak.lock().unwrap().iter().enumerate() {
            let same = i == j;
            let orec: Recipient<Tag> = o.recipient_with(tag_other);
            for (k, eq) in [r == *o, again == *o, strong == o.hold().expect("live"), strong.weak_ref() == *o, dynr == o.dyn_ref(), rec == orec, rec.clone() == orec.clone()].iter().enumerate() {
                if *eq != same {
                    fx.fail("equality", format!("references to components {} and {} are {} (kind {})", i, j, if *eq { "equal" } else { "different" }, k));
                }
                rep.count("comparisons", 1);
            }
        }
        if !dynr.can_upgrade_component() {
            fx.fail("equality", "a live component cannot be reached".into());
        }
        let base = (i as u64) * 1000;
        rec.tell(Tag(base));
        strong.tell(Tag(base + 1));
        again.tell(Tag(base + 2));
        r.recipient_with(tag_other).tell(Tag(base + 3));
        let e: ActorRef<SMsg> = strong.weak_ref();
        e.tell(SMsg::Tagged(base + 4));
        let wanted: Vec<u64> = vec![base, base + 1, base + 2, (base + 3) ^ (1 << 63), base + 4];
        let mine = |b: &[(usize, u64)]| b.iter().filter(|t| (t.1 & !(1 << 63)) / 1000 == i as u64).cloned().collect::<Vec<_>>();
        let end = Instant::now() + T;
        let mut g = book.tags.lock().unwrap();
        while mine(&g).len() < 5 && Instant::now() < end {
            g = book.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
        }
        let got = mine(&g);
        if got != wanted.iter().map(|t| (i, *t)).collect::<Vec<_>>() {
            fx.fail("wrong-target", format!("messages {:?} to server {} were handled as (server, message) {:?}", wanted, i, got));
        }
    }
    // 3. some clients go away while requests are with the servers
    let settled = |want: &HashMap<(usize, u64), Order>, gone: &[usize]| {
        let total: usize = want.iter().filter(|((c, _), o)| !o.late && !gone.contains(c)).map(|(_, o)| o.copies as usize).sum();
        let late = want.values().filter(|o| o.late).count();
        let end = Instant::now() + T;
        let mut g = book.got.lock().unwrap();
        loop {
            let n = g.iter().filter(|(c, _, _)| !gone.contains(c)).count();
            if n >= total && book.held.load(Ordering::SeqCst) >= late {
                return true;
            }
            if Instant::now() > end {
                return false;
            }
            g = book.cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
        }
    };
    let mut gone: Vec<usize> = vec![];
    if !fx.failed {
        if !settled(&want, &[]) {
            fx.fail("reply-lost", format!("{} requests are held and {} replies have arrived", book.held.load(Ordering::SeqCst), book.got.lock().unwrap().len()));
        }
        for i in 0..nc {
            if rng.chance(1, 3) {
                let cl = clients[i].take().unwrap();
                let weak = cl.actor_ref();
                if sys.kill_notify(cl).wait_timeout(T).is_err() {
                    fx.fail("kill", format!("client {} is not killed", i));
                }
                gone.push(i);
                let held = want.iter().any(|((c, _), o)| *c == i && o.late && o.way == Way::Strong);
                if held && !fx.failed {
                    std::thread::sleep(Duration::from_millis(2));
                    if !alive[i].load(Ordering::SeqCst) || weak.hold().is_none() {
                        fx.fail("strong-reference", format!("client {} was deallocated although a strong reference to it exists", i));
                    }
                    rep.count("clients kept by a strong reference", 1);
                } else if !fx.failed {
                    let end = Instant::now() + T;
                    while alive[i].load(Ordering::SeqCst) && Instant::now() < end {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                    if alive[i].load(Ordering::SeqCst) {
                        fx.fail("weak-reference", format!("client {} is not deallocated although only weak references to it exist", i));
                    } else if weak.hold().is_some() {
                        fx.fail("weak-reference", format!("client {} is deallocated but can be held", i));
                    }
                    // nothing happens
                    weak.tell(CMsg::From(Reply { client: i, n: 0, by: 0, copy: 0, body: vec![] }));
                    rep.count("clients deallocated under weak references", 1);
                }
            }
        }
        for s in servers.weak.lock().unwrap().iter() {
            s.tell(SMsg::Flush);
        }
        let end = Instant::now() + T;
        let total: usize = want.iter().filter(|((c, _), o)| !(gone.contains(c) && o.late)).map(|(_, o)| o.copies as usize).sum();
        while (book.held.load(Ordering::SeqCst) > 0 || book.got.lock().unwrap().len() < total) && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(1));
        }
        for i in &gone {
            let end = Instant::now() + T;
            while alive[*i].load(Ordering::SeqCst) && Instant::now() < end {
                std::thread::sleep(Duration::from_millis(1));
            }
            if alive[*i].load(Ordering::SeqCst) {
                fx.fail("strong-reference", format!("client {} stays allocated after the last strong reference to it is gone", i));
            }
        }
    }
    // 4. every reply at its client, as often as it was given
    let got = book.got.lock().unwrap().clone();
    let mut seen: HashMap<(usize, u64, u8), u32> = HashMap::new();
    for (c, form, r) in &got {
        match want.get(&(r.client, r.n)) {
            Some(o) if *c == r.client && *form == form_of(o.way) && o.hops.last() == Some(&r.by) && r.body == body(*c, r.n) => {
                *seen.entry((*c, r.n, r.copy)).or_default() += 1;
            }
            o => fx.fail("wrong-reply", format!("client {} handled {:?} as \"{}\"; the request was {:?}", c, r, form, o)),
        }
    }
    for ((c, n), o) in &want {
        for copy in 0..o.copies {
            let k = seen.get(&(*c, *n, copy)).copied().unwrap_or(0);
            let may_miss = gone.contains(c) && o.late;
            if (k == 0 && !may_miss) || k > 1 || (may_miss && k > 0) {
                fx.fail("reply-lost", format!("reply {} to request {}/{} {:?} arrived {} times (client gone: {})", copy, c, n, o, k, gone.contains(c)));
            }
        }
    }
    if let Some(b) = book.bad.lock().unwrap().first() {
        fx.fail("wrong-target", b.clone());
    }
    rep.count("requests", want.len() as u64);
    rep.count("replies", got.len() as u64);
    rep.eval(sig, want.len() > 3);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "servers": ns, "clients": nc, "requests": want.len(), "gone": gone, "replies": got.len()}));
    }
    drop(clients);
    drop(sv);
    servers.weak.lock().unwrap().clear();
    if sys.shutdown().wait_timeout(T).is_err() {
        fx.fail("shutdown", "the system does not shut down".into());
    }
    let p = take_panics();
    if !p.is_empty() {
        fx.fail("panic", format!("{:?}", p));
    }
}

/// Collections of futures.
fn future_case(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut fx = Fails { rep, case, seed, failed: false };
    let mut sig = hash_bytes(b"futures");
    let n = rng.below(7);
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum End {
        Ok,
        ErrValue,
        Dropped,
        Never,
    }
    let all_ok = rng.chance(1, 2);
    let ends: Vec<End> = (0..n).map(|_| if all_ok { End::Ok } else { *rng.pick(&[End::Ok, End::Ok, End::Ok, End::ErrValue, End::Dropped, End::Never]) }).collect();
    let how = rng.below(6);
    sig = mix(sig, hash_bytes(format!("{:?} {}", ends, how).as_bytes()));
    let (mut ps, mut fs) = (vec![], vec![]);
    for _ in 0..n {
        let (p, f) = promise::<Result<u64, String>>();
        ps.push(p);
        fs.push(f);
    }
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    let e2 = ends.clone();
    let slow = rng.chance(1, 3);
    let h = std::thread::spawn(move || {
        let mut ps: Vec<Option<_>> = ps.into_iter().map(Some).collect();
        for i in order {
            if slow {
                std::thread::sleep(Duration::from_micros(200));
            }
            match e2[i] {
                End::Ok => drop(ps[i].take().unwrap().fulfil(Ok(i as u64 * 7))),
                End::ErrValue => drop(ps[i].take().unwrap().fulfil(Err(format!("e{}", i)))),
                End::Dropped => drop(ps[i].take()),
                End::Never => {}
            }
        }
        // those which never end
        ps
    });
    let finite = !ends.contains(&End::Never);
    let complete = ends.iter().all(|e| matches!(e, End::Ok | End::ErrValue));
    let ok = ends.iter().all(|e| *e == End::Ok);
    let values: Vec<Result<u64, String>> = (0..n).map(|i| if ends[i] == End::Ok { Ok(i as u64 * 7) } else { Err(format!("e{}", i)) }).collect();
    let oks: Vec<u64> = (0..n).map(|i| i as u64 * 7).collect();
    let t = if finite { T } else { Duration::from_millis(60) };
    let started = Instant::now();
    let (want, got): (bool, bool) = match how {
        0 => (complete, quietly(|| fs.expect_completion(t, "x")).is_some()),
        1 => match fs.collect_with_timeout::<Vec<_>>(t) {
            Ok(v) => {
                if complete && v != values {
                    fx.fail("futures", format!("{:?} collected instead of {:?}", v, values));
                }
                (complete, true)
            }
            Err(_) => (complete, false),
        },
        2 if finite => {
            let r = quietly(|| fs.collect_results::<Vec<_>>());
            if complete && r.as_ref() != Some(&values) {
                fx.fail("futures", format!("{:?} collected instead of {:?}", r, values));
            }
            (complete, r.is_some())
        }
        3 => (ok, quietly(|| fs.expect_ok(t, "x")).is_some()),
        4 if finite => {
            let r = quietly(|| fs.collect_ok::<Vec<_>>());
            if ok && r.as_ref() != Some(&oks) {
                fx.fail("futures", format!("{:?} collected instead of {:?}", r, oks));
            }
            (ok, r.is_some())
        }
        _ => {
            let r = quietly(|| fs.collect_ok_with_timeout::<Vec<_>>(t, "x"));
            if ok && r.as_ref() != Some(&oks) {
                fx.fail("futures", format!("{:?} collected instead of {:?}", r, oks));
            }
            (ok, r.is_some())
        }
    };
    if want != got && (finite || got) {
        fx.fail("futures", format!("way {} on {:?} {} (after {:?})", how, ends, if got { "succeeded" } else { "failed" }, started.elapsed()));
    }
    drop(h.join());
    rep.count("future collections", 1);
    rep.eval(sig, n > 1);
}
pub fn c15(rep: &Arc<Report>) {
    rep.rule("one case: clients send requests with four kinds of reply references through chains of servers (typed, erased, dedicated) and some clients are killed before the answer; or one collection of futures; distinct by the requests");
    rep.hang_limit(Duration::from_secs(150));
    rep.run_cases(6, 1.0, u64::MAX, |rep, case, seed| {
        if case % 4 == 3 {
            future_case(rep, case, seed)
        } else {
            ref_case(rep, case, seed)
        }
    });
}
