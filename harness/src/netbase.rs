//! Nodes, recording actors and scripted raw peers for the network checks.
use crate::frames::{F, Ref, reference_decode, reference_encode};
use crate::util::*;
use kompact::net::SessionId;
use kompact::net::buffers::BufferConfig;
use kompact::prelude::*;
use kompact_net::{NetworkConfig, NetworkDispatcher, NetworkStatus, NetworkStatusPort, NetworkStatusRequest};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// A message whose content follows from its header.
#[derive(Clone, Debug, PartialEq)]
pub struct Blob {
    pub tag: u64,
    pub seq: u64,
    pub data: Vec<u8>,
}
pub const BLOB_ID: SerId = 0x5151;
pub fn blob_data(tag: u64, seq: u64, len: usize) -> Vec<u8> {
    Rng::new(mix(tag, seq ^ 0xB10B)).bytes(len)
}
impl Blob {
    pub fn new(tag: u64, seq: u64, len: usize) -> Blob {
        Blob { tag, seq, data: blob_data(tag, seq, len) }
    }
}
impl Serialisable for Blob {
    fn ser_id(&self) -> SerId {
        BLOB_ID
    }
    fn size_hint(&self) -> Option<usize> {
        // sometimes too little, sometimes too much, sometimes nothing
        match self.seq % 5 {
            0 => None,
            1 => Some(1),
            _ => Some(20 + self.data.len()),
        }
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_u64(self.tag);
        buf.put_u64(self.seq);
        buf.put_u32(self.data.len() as u32);
        buf.put_slice(&self.data);
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
    fn cloned(&self) -> Option<Box<dyn Serialisable>> {
        Some(Box::new(self.clone()))
    }
}
pub struct BlobSer;
impl Deserialiser<Blob> for BlobSer {
    const SER_ID: SerId = BLOB_ID;
    fn deserialise(buf: &mut dyn Buf) -> Result<Blob, SerError> {
        if buf.remaining() < 20 {
            return Err(SerError::invalid_data("short blob"));
        }
        let tag = buf.get_u64();
        let seq = buf.get_u64();
        let len = buf.get_u32() as usize;
        if buf.remaining() != len {
            return Err(SerError::invalid_data(format!("blob {}/{} has {} bytes instead of {}", tag, seq, buf.remaining(), len)));
        }
        let mut data = vec![0; len];
        buf.copy_to_slice(&mut data);
        Ok(Blob { tag, seq, data })
    }
}

/// One received message.
#[derive(Clone, Debug)]
pub struct Got {
    pub tag: u64,
    pub seq: u64,
    pub len: usize,
    pub session: Option<u128>,
    pub sender: ActorPath,
    pub at: Instant,
}
#[derive(Default)]
pub struct Inbox {
    pub got: Mutex<Vec<Got>>,
    pub bad: Mutex<Vec<String>>,
    cv: Condvar,
}
impl Inbox {
    pub fn push(&self, g: Got) {
        self.got.lock().unwrap().push(g);
        self.cv.notify_all();
    }
    pub fn len(&self) -> usize {
        self.got.lock().unwrap().len()
    }
    pub fn has(&self, tag: u64, seq: u64) -> bool {
        self.got.lock().unwrap().iter().rev().any(|g| g.tag == tag && g.seq == seq)
    }
    pub fn of(&self, tag: u64) -> Vec<Got> {
        self.got.lock().unwrap().iter().filter(|g| g.tag == tag).cloned().collect()
    }
    /// Waits until `f` holds or nothing has arrived for `quiet`.
    pub fn wait(&self, quiet: Duration, f: impl Fn(&[Got]) -> bool) -> bool {
        let mut g = self.got.lock().unwrap();
        let mut seen = g.len();
        let mut last = Instant::now();
        loop {
            if f(&g) {
                return true;
            }
            if g.len() != seen {
                seen = g.len();
                last = Instant::now();
            }
            let left = quiet.saturating_sub(last.elapsed());
            if left.is_zero() {
                return false;
            }
            g = self.cv.wait_timeout(g, left).unwrap().0;
        }
    }
    pub fn wait_for(&self, tag: u64, seq: u64, quiet: Duration) -> bool {
        self.wait(quiet, |g| g.iter().rev().any(|g| g.tag == tag && g.seq == seq))
    }
}
pub fn check_blob(b: &Blob) -> Result<(), String> {
    if b.data != blob_data(b.tag, b.seq, b.data.len()) {
        return Err(format!("content of message {}/{} ({} bytes) altered", b.tag, b.seq, b.data.len()));
    }
    Ok(())
}

#[derive(ComponentDefinition)]
pub struct Sink {
    ctx: ComponentContext<Self>,
    pub inbox: Arc<Inbox>,
}
impl Sink {
    pub fn new(inbox: Arc<Inbox>) -> Self {
        Sink { ctx: ComponentContext::uninitialised(), inbox }
    }
}
ignore_lifecycle!(Sink);
impl Actor for Sink {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let session = m.session().map(|s| s.as_u128());
        let sender = m.sender().clone();
        match m.data.try_deserialise::<Blob, BlobSer>() {
            Ok(b) => {
                if let Err(e) = check_blob(&b) {
                    self.inbox.bad.lock().unwrap().push(e);
                }
                self.inbox.push(Got { tag: b.tag, seq: b.seq, len: b.data.len(), session, sender, at: Instant::now() });
            }
            Err(e) => self.inbox.bad.lock().unwrap().push(format!("{:?}", e)),
        }
        Handled::OK
    }
}

#[derive(Clone, Debug)]
pub struct Stat {
    pub s: NetworkStatus,
    pub at: Instant,
}
#[derive(Default)]
pub struct StatLog {
    pub log: Mutex<Vec<Stat>>,
    cv: Condvar,
}
impl StatLog {
    pub fn wait(&self, t: Duration, f: impl Fn(&[Stat]) -> bool) -> bool {
        let end = Instant::now() + t;
        let mut g = self.log.lock().unwrap();
        loop {
            if f(&g) {
                return true;
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return false;
            }
            g = self.cv.wait_timeout(g, left).unwrap().0;
        }
    }
    pub fn len(&self) -> usize {
        self.log.lock().unwrap().len()
    }
    /// Whether this session is (or very soon becomes) known as established.
    pub fn established(&self, id: u128) -> bool {
        self.wait(Duration::from_millis(300), |l| l.iter().any(|s| matches!(&s.s, NetworkStatus::ConnectionEstablished(_, i) if i.as_u128() == id)))
    }
    pub fn dump(&self) -> Vec<String> {
        let g = self.log.lock().unwrap();
        let t0 = g.first().map(|s| s.at);
        g.iter().map(|s| format!("+{}ms {:?}", (s.at - t0.unwrap()).as_millis(), s.s)).collect()
    }
    pub fn about(&self, a: SocketAddr) -> Vec<NetworkStatus> {
        self.log
            .lock()
            .unwrap()
            .iter()
            .filter(|s| status_addr(&s.s) == Some(a))
            .map(|s| s.s.clone())
            .collect()
    }
}
pub fn status_addr(s: &NetworkStatus) -> Option<SocketAddr> {
    use NetworkStatus::*;
    match s {
        ConnectionEstablished(p, _) | ConnectionLost(p, _) | ConnectionDropped(p) | ConnectionClosed(p, _) | BlockedSystem(p) | AllowedSystem(p) => Some(p.socket_address()),
        _ => None,
    }
}

#[derive(ComponentDefinition)]
pub struct Watch {
    ctx: ComponentContext<Self>,
    pub port: RequiredPort<NetworkStatusPort>,
    log: Arc<StatLog>,
}
ignore_lifecycle!(Watch);
impl Require<NetworkStatusPort> for Watch {
    fn handle(&mut self, s: NetworkStatus) -> HandlerResult {
        self.log.log.lock().unwrap().push(Stat { s, at: Instant::now() });
        self.log.cv.notify_all();
        Handled::OK
    }
}
impl Actor for Watch {
    type Message = NetworkStatusRequest;
    fn receive_local(&mut self, m: NetworkStatusRequest) -> HandlerResult {
        self.port.trigger(m);
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

pub struct Node {
    pub sys: KompactSystem,
    pub addr: SocketAddr,
    pub inbox: Arc<Inbox>,
    pub stat: Arc<StatLog>,
    pub watch: Arc<Component<Watch>>,
    pub sink: Arc<Component<Sink>>,
    pub ctl: ActorRef<NetworkStatusRequest>,
}
#[derive(Clone, Debug)]
pub struct NodeCfg {
    pub addr: SocketAddr,
    pub chunk: usize,
    pub min_free: usize,
    pub max_chunks: usize,
    pub nodelay: bool,
    pub retries: u8,
    pub retry_ms: u64,
    pub threads: usize,
    pub soft: u32,
    pub hard: u32,
}
impl Default for NodeCfg {
    fn default() -> Self {
        NodeCfg {
            addr: ([127, 0, 0, 1], 0).into(),
            chunk: 128_000,
            min_free: 64,
            max_chunks: 1000,
            nodelay: true,
            retries: 10,
            retry_ms: 100,
            threads: 2,
            soft: 1000,
            hard: 1100,
        }
    }
}
pub fn gen_cfg(rng: &mut Rng) -> NodeCfg {
    let chunk = *rng.pick(&[128usize, 129, 200, 300, 512, 1000, 1024, 4096, 16_000, 65_535, 65_536, 128_000]);
    NodeCfg {
        chunk,
        min_free: *rng.pick(&[0usize, 1, 8, 64, 100, 127]),
        max_chunks: (256usize << 20) / chunk,
        nodelay: rng.chance(1, 2),
        threads: rng.range(1, 3),
        ..NodeCfg::default()
    }
}
impl Node {
    pub fn new(cfg: &NodeCfg) -> Node {
        let mut c = KompactConfig::default();
        c.logger(null_logger());
        c.threads(cfg.threads);
        // the buffers of components
        c.load_config_str(format!(
            "[buffer_config]\nchunk_size = {}\nencode_min_remaining = {}\ninitial_chunk_count = 2\nmax_chunk_count = {}\n",
            cfg.chunk, cfg.min_free, cfg.max_chunks
        ));
        let mut b = BufferConfig::default();
        b.chunk_size(cfg.chunk);
        b.encode_buf_min_free_space(cfg.min_free);
        b.initial_chunk_count(2);
        b.max_chunk_count(cfg.max_chunks);
        let mut n = NetworkConfig::with_buffer_config(cfg.addr, b);
        n.set_tcp_nodelay(cfg.nodelay);
        n.set_max_connection_retry_attempts(cfg.retries);
        n.set_connection_retry_interval(cfg.retry_ms);
        n.set_soft_connection_limit(cfg.soft);
        n.set_hard_connection_limit(cfg.hard);
        c.system_components(DeadletterBox::new, n.build());
        let sys = c.build().wait().expect("system");
        let addr = sys.system_path().socket_address();
        let inbox = Arc::new(Inbox::default());
        let stat = Arc::new(StatLog::default());
        let (i2, s2) = (inbox.clone(), stat.clone());
        let sink = sys.create(move || Sink::new(i2));
        let watch = sys.create(move || Watch { ctx: ComponentContext::uninitialised(), port: RequiredPort::uninitialised(), log: s2 });
        watch.on_definition(|w| {
            sys.with_dispatcher_definition(|d| {
                let d = d.downcast_mut::<NetworkDispatcher>().expect("dispatcher");
                biconnect_ports(d.network_status_port(), &mut w.port);
            })
        });
        let ctl = watch.actor_ref();
        sys.start_notify(&sink).wait_timeout(Duration::from_secs(60)).expect("start");
        sys.start_notify(&watch).wait_timeout(Duration::from_secs(60)).expect("start");
        sys.register_by_alias(&sink, "sink").wait_timeout(Duration::from_secs(60)).expect("register").expect("register");
        Node { sys, addr, inbox, stat, watch, sink, ctl }
    }
    /// Path of the recording actor here.
    pub fn sink_path(&self) -> ActorPath {
        sink_at(self.addr)
    }
    pub fn send(&self, to: &ActorPath, from: &ActorPath, tag: u64, seq: u64, len: usize) {
        to.tell_with_sender(Blob::new(tag, seq, len), &self.sys, from.clone());
    }
    pub fn close(self) {
        let Node { sys, sink, watch, .. } = self;
        drop(sink);
        drop(watch);
        let f = sys.shutdown();
        let _ = f.wait_timeout(Duration::from_secs(60));
    }
}
pub fn sink_at(a: SocketAddr) -> ActorPath {
    NamedPath::with_system(SystemPath::with_socket(Transport::Tcp, a), vec!["sink".into()]).into()
}
pub fn path_at(a: SocketAddr, name: &str) -> ActorPath {
    NamedPath::with_system(SystemPath::with_socket(Transport::Tcp, a), vec![name.into()]).into()
}

/// The bytes of a data frame's content.
pub fn wire(src: &ActorPath, dst: &ActorPath, b: &Blob) -> Vec<u8> {
    let mut v = crate::ser::enc(src);
    v.extend_from_slice(&crate::ser::enc(dst));
    v.extend_from_slice(&BLOB_ID.to_be_bytes());
    v.extend_from_slice(&crate::ser::enc(b));
    v
}
pub fn frame(f: &F) -> Vec<u8> {
    let mut v = Vec::new();
    reference_encode(f, &mut v);
    v
}
/// Parses the content of a data frame addressed to `dst`.
pub fn unwire(c: &[u8], dst: &ActorPath, src: &ActorPath) -> Result<Blob, String> {
    let mut pre = crate::ser::enc(src);
    pre.extend_from_slice(&crate::ser::enc(dst));
    pre.extend_from_slice(&BLOB_ID.to_be_bytes());
    if c.len() < pre.len() || c[..pre.len()] != pre[..] {
        return Err("header of a message altered".into());
    }
    let mut rest = &c[pre.len()..];
    let b = BlobSer::deserialise(&mut rest).map_err(|e| format!("{:?}", e))?;
    check_blob(&b)?;
    Ok(b)
}

/// A peer that speaks the wire protocol by hand.
pub struct Raw {
    pub s: TcpStream,
    pub buf: Vec<u8>,
    pub eof: bool,
    pub error: Option<std::io::ErrorKind>,
}
#[derive(Debug, PartialEq)]
pub enum In {
    Frame(F),
    Timeout,
    Eof,
    Bad(String),
}
impl Raw {
    pub fn new(s: TcpStream) -> Raw {
        let _ = s.set_nodelay(true);
        s.set_write_timeout(Some(Duration::from_secs(60))).unwrap();
        Raw { s, buf: vec![], eof: false, error: None }
    }
    pub fn connect(a: SocketAddr) -> std::io::Result<Raw> {
        Ok(Raw::new(TcpStream::connect_timeout(&a, Duration::from_secs(60))?))
    }
    pub fn send(&mut self, b: &[u8]) -> bool {
        self.s.write_all(b).is_ok()
    }
    /// in pieces
    pub fn send_slow(&mut self, b: &[u8], rng: &mut Rng) -> bool {
        let mut i = 0;
        while i < b.len() {
            let n = rng.range(1, (b.len() - i).min(1 + b.len() / 4));
            if !self.send(&b[i..i + n]) {
                return false;
            }
            i += n;
            std::thread::sleep(Duration::from_micros(rng.below(1500) as u64));
        }
        true
    }
    pub fn frame(&mut self, f: &F) -> bool {
        self.send(&frame(f))
    }
    /// Reads some bytes (at most `max`).
    pub fn fill(&mut self, t: Duration, max: usize) -> Option<usize> {
        self.s.set_read_timeout(Some(t.max(Duration::from_millis(1)))).unwrap();
        let mut b = vec![0u8; max.clamp(1, 1 << 16)];
        match self.s.read(&mut b) {
            Ok(0) => {
                self.eof = true;
                Some(0)
            }
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                Some(n)
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => None,
            Err(e) => {
                self.eof = true;
                self.error = Some(e.kind());
                Some(0)
            }
        }
    }
    /// Sets the size of the receive buffer.
    pub fn window(&mut self, bytes: usize) {
        let v = bytes as libc::c_int;
        unsafe {
            libc::setsockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &v as *const _ as *const libc::c_void, 4);
        }
    }
    pub fn pop(&mut self) -> Option<In> {
        match reference_decode(&self.buf) {
            Ref::Frame(f, n) => {
                self.buf.drain(..n);
                Some(In::Frame(f))
            }
            Ref::More => None,
            x => Some(In::Bad(format!("{:?} at {:02x?}", x, &self.buf[..self.buf.len().min(40)]))),
        }
    }
    pub fn read(&mut self, t: Duration) -> In {
        let end = Instant::now() + t;
        loop {
            if let Some(f) = self.pop() {
                return f;
            }
            if self.eof {
                return In::Eof;
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return In::Timeout;
            }
            self.fill(left, 1 << 16);
        }
    }
    /// Handshake as the side that connects.
    pub fn handshake(&mut self, own: SocketAddr, session: u128) -> Result<SocketAddr, String> {
        let t = Duration::from_secs(60);
        let a = match self.read(t) {
            In::Frame(F::Hello(a)) => a,
            x => return Err(format!("expected Hello, got {:?}", x)),
        };
        self.frame(&F::Start(own, session));
        match self.read(t) {
            In::Frame(F::Ack) => Ok(a),
            x => Err(format!("expected Ack, got {:?}", x)),
        }
    }
    /// Handshake as the side that accepts.
    pub fn accept(&mut self, own: SocketAddr) -> Result<(SocketAddr, u128), In> {
        self.frame(&F::Hello(own));
        match self.read(Duration::from_secs(60)) {
            In::Frame(F::Start(a, id)) => {
                self.frame(&F::Ack);
                Ok((a, id))
            }
            x => Err(x),
        }
    }
    /// Closes with a reset.
    pub fn rst(self) {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
        }
        drop(self.s);
    }
}
pub fn accept_within(l: &TcpListener, t: Duration) -> Option<TcpStream> {
    l.set_nonblocking(true).unwrap();
    let end = Instant::now() + t;
    loop {
        match l.accept() {
            Ok((s, _)) => {
                s.set_nonblocking(false).unwrap();
                return Some(s);
            }
            Err(_) if Instant::now() < end => std::thread::sleep(Duration::from_millis(1)),
            Err(_) => return None,
        }
    }
}
/// A listener whose connections have a small receive window.
pub fn small_listener(rcvbuf: usize) -> TcpListener {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    if rcvbuf > 0 {
        let v = rcvbuf as libc::c_int;
        unsafe {
            libc::setsockopt(l.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &v as *const _ as *const libc::c_void, 4);
        }
    }
    l
}

/// Per sender and session: strictly consecutive.
pub fn session_order(got: &[Got]) -> Result<(), (&'static str, String)> {
    let mut last: HashMap<(u64, Option<u128>), u64> = HashMap::new();
    for g in got {
        if let Some(l) = last.insert((g.tag, g.session), g.seq) {
            let sig = if g.seq == l { "duplicate" } else if g.seq < l { "reordered" } else if g.seq > l + 1 { "gap" } else { continue };
            return Err((sig, format!("sender {}: message {} arrived after {} in session {:?}", g.tag, g.seq, l, g.session.map(|s| s % 10000))));
        }
    }
    Ok(())
}
pub fn sid(s: &SessionId) -> u128 {
    s.as_u128()
}
/// The events about one peer are those of a sequence of sessions.
pub fn status_ok(ev: &[NetworkStatus]) -> Result<(), String> {
    let mut state: HashMap<u128, &'static str> = HashMap::new();
    for e in ev {
        match e {
            NetworkStatus::ConnectionEstablished(_, s) => {
                if let Some((o, _)) = state.iter().find(|(_, x)| **x == "up") {
                    return Err(format!("session {:x} established although session {:x} is up", sid(s), o));
                }
                if let Some(o) = state.insert(sid(s), "up") {
                    return Err(format!("session established although it was {}", o));
                }
            }
            NetworkStatus::ConnectionLost(_, s) | NetworkStatus::ConnectionClosed(_, s) => {
                match state.insert(sid(s), "down") {
                    Some("down") => return Err("session ended twice".into()),
                    None => return Err("a session ended that had not been established".into()),
                    _ => {}
                }
            }
            _ => {}
        }
    }
    Ok(())
}
/// Accepts until a handshake completes (an attempt that takes longer than the retry interval is
/// abandoned by the connecting side in favour of a new one).
pub fn accept_session(l: &TcpListener, own: SocketAddr, t: Duration) -> Option<(Raw, SocketAddr, u128)> {
    let end = Instant::now() + t;
    while Instant::now() < end {
        let mut r = Raw::new(accept_within(l, end.saturating_duration_since(Instant::now()))?);
        if let Ok((a, id)) = r.accept(own) {
            return Some((r, a, id));
        }
    }
    None
}
