//! S03: reassembly of frames from a byte stream, and malformed streams (S02).
use crate::util::*;
use bytes::Buf;
use kompact::net::SessionId;
use kompact::net::buffers::*;
use kompact::net::frames::*;
use kompact::prelude::*;
use serde_json::json;
use std::collections::VecDeque;
use std::net::SocketAddr;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Data(Vec<u8>),
    Hello(SocketAddr),
    Start(SocketAddr, u128),
    Ack,
    Bye,
}

/// The wire format as documented: magic, content length, type, content.
pub fn reference_encode(f: &F, out: &mut Vec<u8>) {
    let (t, c): (u8, Vec<u8>) = match f {
        F::Data(d) => (2, d.clone()),
        F::Hello(a) => (4, addr(a)),
        F::Start(a, id) => {
            let mut v = addr(a);
            v.extend_from_slice(&id.to_be_bytes());
            (5, v)
        }
        F::Ack => (6, vec![]),
        F::Bye => (7, vec![]),
    };
    out.extend_from_slice(&0xC0A1BA11u32.to_be_bytes());
    out.extend_from_slice(&(c.len() as u32).to_be_bytes());
    out.push(t);
    out.extend_from_slice(&c);
}
fn addr(a: &SocketAddr) -> Vec<u8> {
    let mut v = Vec::new();
    match a {
        SocketAddr::V4(a) => {
            v.push(4);
            v.extend_from_slice(&a.ip().octets());
        }
        SocketAddr::V6(a) => {
            v.push(6);
            v.extend_from_slice(&a.ip().octets());
        }
    }
    v.extend_from_slice(&a.port().to_be_bytes());
    v
}

/// One step of a reference decoder over `b[pos..]`.
#[derive(Debug, PartialEq)]
pub enum Ref {
    Frame(F, usize),
    More,
    /// magic or type wrong, or content that cannot be this frame
    Bad,
    /// unclear (zero length data, content on a frame that has none, surplus content): anything but a crash
    Loose,
}
pub fn reference_decode(b: &[u8]) -> Ref {
    if b.len() < 9 {
        return Ref::More;
    }
    if b[..4] != 0xC0A1BA11u32.to_be_bytes() {
        return Ref::Bad;
    }
    let len = u32::from_be_bytes(b[4..8].try_into().unwrap()) as usize;
    if !(2..=7).contains(&b[8]) || b[8] == 3 {
        return if b.len() - 9 < len { Ref::More } else { Ref::Bad };
    }
    if b.len() - 9 < len {
        return Ref::More;
    }
    let c = &b[9..9 + len];
    let f = match b[8] {
        2 if len == 0 => return Ref::Loose,
        2 => F::Data(c.to_vec()),
        4 | 5 => {
            let (alen, extra) = match c.first() {
                Some(4) => (7, if b[8] == 5 { 16 } else { 0 }),
                Some(6) => (19, if b[8] == 5 { 16 } else { 0 }),
                _ => return Ref::Bad,
            };
            if c.len() < alen + extra {
                return Ref::Bad;
            }
            if c.len() > alen + extra {
                return Ref::Loose;
            }
            let port = u16::from_be_bytes(c[alen - 2..alen].try_into().unwrap());
            let ip: std::net::IpAddr = if alen == 7 {
                <[u8; 4]>::try_from(&c[1..5]).unwrap().into()
            } else {
                <[u8; 16]>::try_from(&c[1..17]).unwrap().into()
            };
            let a = SocketAddr::new(ip, port);
            if b[8] == 4 { F::Hello(a) } else { F::Start(a, u128::from_be_bytes(c[alen..alen + 16].try_into().unwrap())) }
        }
        6 | 7 if len > 0 => return Ref::Loose,
        6 => F::Ack,
        _ => F::Bye,
    };
    Ref::Frame(f, 9 + len)
}

fn gen_addr(rng: &mut Rng) -> SocketAddr {
    SocketAddr::new(crate::ser::gen_ip(rng), rng.next() as u16)
}
fn gen_frame(rng: &mut Rng, chunk: usize) -> F {
    match rng.below(12) {
        0 => F::Hello(gen_addr(rng)),
        1 => F::Start(gen_addr(rng), (rng.next() as u128) << 64 | rng.next() as u128),
        2 => F::Ack,
        3 => F::Bye,
        _ => {
            let n = match rng.below(8) {
                0 => 1,
                1 => rng.range(1, 12),
                2 => chunk - 9,
                3 => chunk,
                4 => rng.range(chunk - 20, chunk + 20),
                5 => rng.range(1, 5 * chunk),
                6 => 9,
                _ => rng.range(1, chunk),
            };
            let mut d = rng.bytes(n);
            if rng.chance(1, 8) {
                // content that looks like frame heads
                for w in d.chunks_exact_mut(9) {
                    w[..4].copy_from_slice(&0xC0A1BA11u32.to_be_bytes());
                }
            }
            F::Data(d)
        }
    }
}

fn lease_of(data: &[u8], rng: &mut Rng) -> ChunkLease {
    let mut c = BufferConfig::default();
    c.chunk_size(*rng.pick(&[128usize, 200, 1000]));
    let mut eb = EncodeBuffer::with_config(&c, &None);
    let mut e = eb.get_buffer_encoder().unwrap();
    use bytes::BufMut;
    e.put_slice(data);
    let l = e.get_chunk_lease().unwrap();
    drop(e);
    // keep the chunks alive for as long as the program runs
    std::mem::forget(eb);
    l
}

fn to_frame(f: &F, rng: &mut Rng) -> Frame {
    match f {
        F::Data(d) => Frame::Data(Data::new(lease_of(d, rng))),
        F::Hello(a) => Frame::Hello(Hello::new(*a)),
        F::Start(a, id) => Frame::Start(Start::new(*a, SessionId::from_u128(*id))),
        F::Ack => Frame::Ack(),
        F::Bye => Frame::Bye(),
    }
}

pub fn drain(mut b: impl Buf) -> Vec<u8> {
    let mut v = Vec::new();
    while b.has_remaining() {
        let n = b.chunk().len();
        if n == 0 {
            v.extend_from_slice(b"<empty chunk>");
            return v;
        }
        v.extend_from_slice(b.chunk());
        b.advance(n);
    }
    v
}

/// Feeds bytes to a DecodeBuffer the way a TCP channel does.
pub struct Rx {
    pub db: DecodeBuffer,
    pool: BufferPool,
    parked: Vec<BufferChunk>,
    pub swaps: usize,
    pub exhausted: bool,
}
impl Rx {
    pub fn new(cfg: &BufferConfig) -> Rx {
        let mut pool = BufferPool::with_config(cfg, &None);
        let c = pool.get_buffer().unwrap();
        Rx { db: DecodeBuffer::new(c, cfg), pool, parked: vec![], swaps: 0, exhausted: false }
    }
    fn swap(&mut self) -> bool {
        match self.pool.get_buffer() {
            Some(mut c) => {
                self.db.swap_buffer(&mut c);
                self.swaps += 1;
                self.pool.return_buffer(c);
                true
            }
            None => {
                self.exhausted = true;
                false
            }
        }
    }
    /// Writes one read's worth; returns the number of bytes taken.
    fn read(&mut self, b: &[u8]) -> usize {
        let n = match self.db.get_writeable() {
            Some(w) => {
                let n = w.len().min(b.len());
                w[..n].copy_from_slice(&b[..n]);
                n
            }
            None => {
                if !self.swap() {
                    return 0;
                }
                let w = self.db.get_writeable().expect("no room in a fresh buffer");
                let n = w.len().min(b.len());
                w[..n].copy_from_slice(&b[..n]);
                n
            }
        };
        self.db.advance_writeable(n);
        n
    }
}
impl Drop for Rx {
    fn drop(&mut self) {
        self.parked.clear();
    }
}

fn cut(rng: &mut Rng, style: usize, left: usize) -> usize {
    let n = match style {
        0 => 1,
        1 => rng.range(1, 9),
        2 => rng.range(1, 64),
        3 => left,
        4 => *rng.pick(&[8, 9, 10, 127, 128, 129]),
        _ => rng.range(1, 700),
    };
    n.min(left)
}

enum Got {
    Data(ChunkLease, Vec<u8>),
    Ref(ChunkRef, Vec<u8>),
}

/// Extracts what is complete and compares with the reference. Returns false when the stream is over.
#[allow(clippy::too_many_arguments)]
fn extract(rx: &mut Rx, stream: &[u8], fed: usize, pos: &mut usize, held: &mut VecDeque<Got>, rng: &mut Rng, bad: &mut dyn FnMut(&str, String), frames: &mut u64) -> bool {
    loop {
        let want = reference_decode(&stream[*pos..fed]);
        if rng.chance(1, 4) {
            let h = rx.db.has_frame();
            match (&h, &want) {
                (Ok(true), Ref::Frame(..)) | (Ok(false), Ref::More) => {}
                (Err(_), Ref::Bad) | (_, Ref::Loose) | (Ok(true), Ref::Bad) => {}
                (Err(_), Ref::More) if fed - *pos >= 9 && (!(2..=7).contains(&stream[*pos + 8]) || stream[*pos + 8] == 3) => {}
                _ => bad("has-frame-wrong", format!("has_frame {:?} but {:?}", h, short(&want))),
            }
            if h.is_err() {
                // the connection would be closed here
                return false;
            }
        }
        let got = rx.db.get_frame();
        match (got, want) {
            (Err(FramingError::NoData), Ref::More) => return true,
            (Ok(f), Ref::Frame(w, n)) => {
                let ok = match (f, &w) {
                    (Frame::Data(d), F::Data(w)) => {
                        let l = d.payload();
                        if l.remaining() != w.len() || l.capacity() != w.len() {
                            bad("payload-length-wrong", format!("remaining {} capacity {} expected {}", l.remaining(), l.capacity(), w.len()));
                        }
                        match rng.below(4) {
                            0 => drain(l) == *w,
                            1 => {
                                let b = l.create_byte_clone();
                                let r = b[..] == w[..];
                                held.push_back(Got::Ref(l.into_chunk_ref(), w.clone()));
                                r
                            }
                            2 => {
                                held.push_back(Got::Data(l, w.clone()));
                                true
                            }
                            _ => {
                                let r = l.into_chunk_ref();
                                let ok = drain(r.clone()) == *w;
                                held.push_back(Got::Ref(r, w.clone()));
                                ok
                            }
                        }
                    }
                    (Frame::Hello(h), F::Hello(a)) => h.addr() == *a,
                    (Frame::Start(s), F::Start(a, id)) => s.addr() == *a && s.id().as_u128() == *id,
                    (Frame::Ack(), F::Ack) | (Frame::Bye(), F::Bye) => true,
                    _ => false,
                };
                if !ok {
                    bad("frame-altered", format!("frame at byte {} differs from {:?}", pos, short(&Ref::Frame(w, n))));
                    return false;
                }
                *frames += 1;
                *pos += n;
            }
            (Err(FramingError::NoData), w @ Ref::Frame(..)) => {
                bad("frame-withheld", format!("complete frame at byte {} of {} fed is not extracted: {:?}", pos, fed, short(&w)));
                return false;
            }
            (Err(_), Ref::Bad) => return false,
            (Ok(f), Ref::Bad) => {
                bad("invalid-frame-accepted", format!("{:?} from {:?}", f, &stream[*pos..(*pos + 60).min(fed)]));
                return false;
            }
            // a head that is already wrong may be refused before its content has arrived
            (Err(_), Ref::More) if fed - *pos >= 9 && (!(2..=7).contains(&stream[*pos + 8]) || stream[*pos + 8] == 3) => return false,
            (_, Ref::Loose) => return false,
            (Err(FramingError::NoData), Ref::Bad) => {
                bad("invalid-frame-not-refused", format!("{:?}", &stream[*pos..(*pos + 60).min(fed)]));
                return false;
            }
            (Err(e), w) => {
                bad("valid-stream-refused", format!("{:?} at byte {} of {}; expected {:?}", e, pos, fed, short(&w)));
                return false;
            }
            (Ok(f), Ref::More) => {
                bad("frame-invented", format!("{} at byte {} of {}", short_frame(&f), pos, fed));
                return false;
            }
        }
    }
}
fn short_frame(f: &Frame) -> String {
    match f {
        Frame::Data(d) => format!("Data({} bytes)", d.payload.remaining()),
        o => format!("{:?}", o),
    }
}
fn short(r: &Ref) -> String {
    match r {
        Ref::Frame(F::Data(d), n) => format!("Data({} bytes), {} total", d.len(), n),
        o => format!("{:?}", o),
    }
}

fn check_held(held: &mut VecDeque<Got>, all: bool, rng: &mut Rng, bad: &mut dyn FnMut(&str, String), checks: &mut u64) {
    while !held.is_empty() && (all || held.len() > 40 || rng.chance(1, 8)) {
        let i = rng.below(held.len());
        let (got, want) = match held.swap_remove_back(i).unwrap() {
            Got::Data(l, w) => (drain(l), w),
            Got::Ref(r, w) => (drain(r), w),
        };
        *checks += 1;
        if got != want {
            bad("held-frame-changed", format!("a frame's content changed while it was held ({} bytes)", want.len()));
        }
    }
}

pub fn s03(rep: &Arc<Report>) {
    rep.rule("a case is a sequence of frames, a chunk size and a way to cut the stream; distinct by stream bytes and cuts; every case is non-trivial when at least two chunks were used");
    rep.assume("frames with zero-length content of kind Data, and surplus content after a handshake frame, are only required not to crash (the encoder never produces them)");
    rep.run_cases(8, 1.0, u64::MAX, |rep, case, seed| {
        let rng = &mut Rng::new(seed);
        let mut cfg = BufferConfig::default();
        let chunk = *rng.pick(&[128usize, 129, 130, 150, 200, 256, 300, 1000, 4096]);
        cfg.chunk_size(chunk);
        cfg.encode_buf_min_free_space(*rng.pick(&[0usize, 1, 8, 9, 64, 100, 127]));
        cfg.initial_chunk_count(rng.range(1, 3));
        cfg.max_chunk_count(100_000);
        let n = rng.range(1, 30);
        let fs: Vec<F> = (0..n).map(|_| gen_frame(rng, chunk)).collect();
        let mut stream = Vec::new();
        let r = catch(|| {
            for f in &fs {
                let before = stream.len();
                reference_encode(f, &mut stream);
                if rng.chance(1, 3) {
                    let mut fr = to_frame(f, rng);
                    let want = stream.len() - before - 9;
                    if fr.encoded_len() != want {
                        rep.violation("encoded-len-wrong", case, format!("{} says {} needs {}", short_frame(&fr), fr.encoded_len(), want), json!({}));
                    }
                    let mut v: Vec<u8> = Vec::new();
                    // a bounded destination: an encoder that does not terminate runs into its end
                    let mut lim = bytes::BufMut::limit(&mut v, want + 9 + 64);
                    if let Err(e) = fr.encode_into(&mut lim) {
                        rep.violation("encode-failed", case, format!("{:?}", e), json!({}));
                    }
                    if v[..] != stream[before..] {
                        rep.violation("encoding-differs", case, format!("{:?}", v.len()), json!({}));
                    }
                    rep.count("frames_encoded", 1);
                }
            }
        });
        if let Err(e) = r {
            rep.violation("encode-panicked", case, e, json!({}));
            return;
        }
        let style = rng.below(6);
        let early_swap = rng.chance(1, 6);
        let lazy = rng.chance(1, 4);
        let mut frames = 0u64;
        let mut held_checks = 0u64;
        let mut sig = mix(hash_bytes(&stream), chunk as u64);
        let mut swaps = 0;
        let r = catch(|| {
            let mut rx = Rx::new(&cfg);
            let mut held = VecDeque::new();
            let (mut fed, mut pos) = (0, 0);
            let mut dead = false;
            let mut bad = |s: &str, d: String| {
                rep.violation(s, case, format!("{} (chunk {} min {} style {})", d, chunk, cfg_min(&cfg), style), json!({}));
            };
            while fed < stream.len() && !dead {
                let k = cut(rng, style, stream.len() - fed);
                let t = rx.read(&stream[fed..fed + k]);
                if t == 0 {
                    bad("no-progress", format!("pool exhausted: {}", rx.exhausted));
                    dead = true;
                    break;
                }
                fed += t;
                sig = mix(sig, t as u64);
                if early_swap && rng.chance(1, 10) {
                    rx.swap();
                }
                if !lazy || rng.chance(1, 5) || fed == stream.len() {
                    dead = !extract(&mut rx, &stream, fed, &mut pos, &mut held, rng, &mut bad, &mut frames);
                    check_held(&mut held, false, rng, &mut bad, &mut held_checks);
                }
            }
            if !dead && pos != stream.len() {
                bad("frames-missing", format!("{} of {} bytes consumed", pos, stream.len()));
            }
            check_held(&mut held, true, rng, &mut bad, &mut held_checks);
            swaps = rx.swaps;
        });
        if let Err(e) = r {
            rep.violation("decoder-panicked", case, format!("{} (chunk {} style {})", e, chunk, style), json!({}));
        }
        if frames != n as u64 && !rep.violated() {
            rep.violation("frames-missing", case, format!("{} of {}", frames, n), json!({}));
        }
        rep.count("frames_extracted", frames);
        rep.count("chunk_swaps", swaps as u64);
        rep.count("held_payload_checks", held_checks);
        rep.eval(sig, swaps > 0);
        if rep.wants_sample() {
            rep.sample(json!({"frames": n, "chunk_size": chunk, "stream_bytes": stream.len(), "swaps": swaps, "cut_style": style}));
        }
    });
}
fn cfg_min(c: &BufferConfig) -> String {
    format!("{:?}", c)
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        let p = take_local_panics();
        take_panics();
        format!("{:?}", p)
    })
}

/// A stream with damaged parts: everything before the damage arrives, nothing crashes.
pub fn malformed(rep: &Arc<Report>, case: u64, rng: &mut Rng) {
    let mut cfg = BufferConfig::default();
    let chunk = *rng.pick(&[128usize, 150, 256, 1000]);
    cfg.chunk_size(chunk);
    cfg.max_chunk_count(10_000);
    let mut stream = Vec::new();
    for _ in 0..rng.range(1, 6) {
        let before = stream.len();
        let f = gen_frame(rng, 128);
        reference_encode(&f, &mut stream);
        match rng.below(6) {
            0 => {
                // wrong length
                let l = *rng.pick(&[0u32, 1, 2, 6, 7, 8, 18, 19, 22, 23, 24, 34, 35, 36, 1000, u32::MAX, u32::MAX - 9]);
                stream[before + 4..before + 8].copy_from_slice(&l.to_be_bytes());
            }
            1 => {
                let t = rng.next() as u8 % 12;
                stream[before + 8] = t;
            }
            2 => {
                // damage anywhere
                let p = before + rng.below(stream.len() - before);
                stream[p] ^= 1 << rng.below(8);
            }
            3 => {
                // address version
                if stream.len() > before + 9 {
                    stream[before + 9] = rng.next() as u8 % 9;
                }
            }
            _ => {}
        }
    }
    if rng.chance(1, 4) {
        let n = rng.below(stream.len());
        stream.truncate(n);
    }
    let style = rng.below(6);
    let mut frames = 0;
    let r = catch(|| {
        let mut rx = Rx::new(&cfg);
        let mut held = VecDeque::new();
        let (mut fed, mut pos) = (0, 0);
        let mut dead = false;
        let mut bad = |s: &str, d: String| {
            rep.violation(&format!("frame:{}", s), case, d, json!({"stream": stream.iter().take(300).collect::<Vec<_>>()}));
        };
        while fed < stream.len() && !dead {
            let k = cut(rng, style, stream.len() - fed);
            let t = rx.read(&stream[fed..fed + k]);
            if t == 0 {
                break;
            }
            fed += t;
            dead = !extract(&mut rx, &stream, fed, &mut pos, &mut held, rng, &mut bad, &mut frames);
        }
        // asking on after the damage must not crash either
        if dead {
            for _ in 0..20 {
                let _ = rx.db.get_frame();
                let _ = rx.db.has_frame();
            }
        }
        let mut c = 0;
        check_held(&mut held, true, rng, &mut bad, &mut c);
    });
    if let Err(e) = r {
        rep.violation("frame:decoder-panicked", case, e, json!({"stream": stream.iter().take(300).collect::<Vec<_>>()}));
    }
    rep.eval(mix(0xF8A, hash_bytes(&stream)), true);
    rep.count("inputs_frames", 1);
    rep.count("frames_before_damage", frames);
}
