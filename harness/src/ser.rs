//! S01 (round trips), S02 (malformed bytes) and D03 (actor paths).
use crate::util::*;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use kompact::net::buffers::{BufferConfig, ChunkRef, EncodeBuffer};
use kompact::prelude::*;
use kompact::serde_serialisers::Serde;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::sync::Arc;

/// A `Buf` consisting of arbitrarily cut pieces.
pub struct SplitBuf {
    parts: Vec<Vec<u8>>,
    i: usize,
    off: usize,
}
impl SplitBuf {
    pub fn cut(data: &[u8], rng: &mut Rng) -> SplitBuf {
        let mut parts = Vec::new();
        let mut rest = data;
        let max = *rng.pick(&[1usize, 2, 3, 8, 64, 1000]);
        while !rest.is_empty() {
            let n = rng.range(1, max.min(rest.len()));
            parts.push(rest[..n].to_vec());
            rest = &rest[n..];
        }
        SplitBuf { parts, i: 0, off: 0 }
    }
}
impl Buf for SplitBuf {
    fn remaining(&self) -> usize {
        self.parts[self.i..].iter().map(|p| p.len()).sum::<usize>() - self.off
    }
    fn chunk(&self) -> &[u8] {
        self.parts.get(self.i).map(|p| &p[self.off..]).unwrap_or(&[])
    }
    fn advance(&mut self, mut cnt: usize) {
        assert!(cnt <= self.remaining(), "advanced past the end of the data");
        while cnt > 0 {
            let here = self.parts[self.i].len() - self.off;
            if cnt < here {
                self.off += cnt;
                return;
            }
            cnt -= here;
            self.i += 1;
            self.off = 0;
        }
    }
}

// ------------------------------------------------------------------ values

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Unit;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Newtype(u64);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TupleS(i8, String, Option<bool>);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum En {
    A,
    B(u32),
    C(i64, String),
    D { x: Option<f32>, y: Vec<u8> },
    E(Unit),
    F(Box<En>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rich {
    a: i8,
    b: i16,
    c: i32,
    d: i64,
    e: u8,
    f: u16,
    g: u32,
    h: u64,
    i: f64,
    f3: f32,
    j: char,
    k: String,
    l: Vec<u8>,
    m: Option<Box<Rich>>,
    n: BTreeMap<u32, String>,
    o: (u8, bool, String),
    p: En,
    q: Vec<En>,
    r: Unit,
    s: Newtype,
    t: TupleS,
    u: Option<()>,
    v: [u16; 3],
    w: Option<ActorPath>,
    x: Bytes,
    y: Option<Option<u8>>,
    z: IpAddr,
}
impl SerialisationId for Rich {
    const SER_ID: SerId = 4001;
}
macro_rules! serde_ids {
    ($($t:ty => $id:expr),*) => { $(impl SerialisationId for W<$t> { const SER_ID: SerId = $id; })* }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct W<T>(pub T);
serde_ids!(u8 => 4010, u16 => 4011, u32 => 4012, u64 => 4013, i8 => 4014, i16 => 4015, i32 => 4016, i64 => 4017,
    f32 => 4018, f64 => 4019, char => 4020, bool => 4021, String => 4022, Bytes => 4023, Option<u64> => 4024,
    Vec<String> => 4025, En => 4026, BTreeMap<String, Vec<u64>> => 4027, () => 4028, ActorPath => 4029, Unit => 4030);

/// A user-defined type with a hand-written serialiser, using every way of writing to the buffer.
#[derive(Clone, Debug, PartialEq)]
pub struct Mine {
    pub hint: Option<usize>,
    pub ops: Vec<Piece>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    U8(u8),
    U16(u16),
    I64(i64),
    U128(u128),
    F64(f64),
    Slice(Vec<u8>),
    Put(Vec<u8>),
    Fill(u8, usize),
    Uint(u64, usize),
}
#[derive(Clone, Copy, Debug)]
pub struct MineSer(pub Option<usize>);
impl Serialiser<Mine> for MineSer {
    fn ser_id(&self) -> SerId {
        5000
    }
    fn size_hint(&self) -> Option<usize> {
        self.0
    }
    fn serialise(&self, v: &Mine, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_u32(v.ops.len() as u32);
        for p in &v.ops {
            match p {
                Piece::U8(x) => {
                    buf.put_u8(0);
                    buf.put_u8(*x)
                }
                Piece::U16(x) => {
                    buf.put_u8(1);
                    buf.put_u16(*x)
                }
                Piece::I64(x) => {
                    buf.put_u8(2);
                    buf.put_i64_le(*x)
                }
                Piece::U128(x) => {
                    buf.put_u8(3);
                    buf.put_u128(*x)
                }
                Piece::F64(x) => {
                    buf.put_u8(4);
                    buf.put_f64(*x)
                }
                Piece::Slice(x) => {
                    buf.put_u8(5);
                    buf.put_u32(x.len() as u32);
                    buf.put_slice(x)
                }
                Piece::Put(x) => {
                    buf.put_u8(6);
                    buf.put_u32(x.len() as u32);
                    let mut b: &mut dyn BufMut = buf;
                    (&mut b).put(Bytes::from(x.clone()))
                }
                Piece::Fill(x, n) => {
                    buf.put_u8(7);
                    buf.put_u32(*n as u32);
                    buf.put_bytes(*x, *n);
                    buf.put_u8(*x)
                }
                Piece::Uint(x, n) => {
                    buf.put_u8(8);
                    buf.put_u8(*n as u8);
                    buf.put_uint(*x, *n)
                }
            }
        }
        Ok(())
    }
}
impl Deserialiser<Mine> for MineSer {
    const SER_ID: SerId = 5000;
    fn deserialise(buf: &mut dyn Buf) -> Result<Mine, SerError> {
        let n = buf.try_get_u32().map_err(SerError::from_debug)?;
        let mut ops = Vec::new();
        for _ in 0..n {
            ops.push(match buf.try_get_u8().map_err(SerError::from_debug)? {
                0 => Piece::U8(buf.try_get_u8().map_err(SerError::from_debug)?),
                1 => Piece::U16(buf.try_get_u16().map_err(SerError::from_debug)?),
                2 => Piece::I64(buf.try_get_i64_le().map_err(SerError::from_debug)?),
                3 => Piece::U128(buf.try_get_u128().map_err(SerError::from_debug)?),
                4 => Piece::F64(buf.try_get_f64().map_err(SerError::from_debug)?),
                k @ (5 | 6) => {
                    let l = buf.try_get_u32().map_err(SerError::from_debug)? as usize;
                    if buf.remaining() < l {
                        return Err(SerError::invalid_data("too short"));
                    }
                    let mut v = vec![0; l];
                    buf.copy_to_slice(&mut v);
                    if k == 5 { Piece::Slice(v) } else { Piece::Put(v) }
                }
                7 => {
                    let l = buf.try_get_u32().map_err(SerError::from_debug)? as usize;
                    if buf.remaining() < l + 1 {
                        return Err(SerError::invalid_data("too short"));
                    }
                    let v = buf.copy_to_bytes(l);
                    let x = buf.get_u8();
                    if v.iter().any(|b| *b != x) {
                        return Err(SerError::invalid_data("fill differs"));
                    }
                    Piece::Fill(x, l)
                }
                8 => {
                    let n = buf.try_get_u8().map_err(SerError::from_debug)? as usize;
                    if n == 0 || n > 8 || buf.remaining() < n {
                        return Err(SerError::invalid_data("bad uint"));
                    }
                    Piece::Uint(buf.get_uint(n), n)
                }
                _ => return Err(SerError::invalid_data("bad tag")),
            });
        }
        Ok(Mine { hint: None, ops })
    }
}
fn gen_mine(rng: &mut Rng) -> Mine {
    let n = rng.range(0, 12);
    let ops = (0..n)
        .map(|_| match rng.below(9) {
            0 => Piece::U8(rng.next() as u8),
            1 => Piece::U16(rng.next() as u16),
            2 => Piece::I64(rng.next() as i64),
            3 => Piece::U128((rng.next() as u128) << 64 | rng.next() as u128),
            4 => Piece::F64(rng.below(100000) as f64 / 7.0),
            5 => {
                let n = len(rng);
                Piece::Slice(rng.bytes(n))
            }
            6 => {
                let n = len(rng);
                Piece::Put(rng.bytes(n))
            }
            7 => Piece::Fill(rng.next() as u8, len(rng)),
            _ => {
                let n = rng.range(1, 8);
                let x = if n == 8 { rng.next() } else { rng.next() & ((1u64 << (8 * n)) - 1) };
                Piece::Uint(x, n)
            }
        })
        .collect();
    Mine { hint: None, ops }
}

fn len(rng: &mut Rng) -> usize {
    if cfg!(miri) {
        return rng.below(60);
    }
    match rng.weighted(&[3, 10, 6, 4, 1]) {
        0 => 0,
        1 => rng.range(1, 20),
        2 => rng.range(20, 200),
        3 => rng.range(120, 520),
        _ => rng.range(500, 3000),
    }
}
pub fn gen_string(rng: &mut Rng) -> String {
    let n = len(rng);
    let mut s = String::new();
    while s.len() < n {
        s.push(match rng.below(6) {
            0 => char::from_u32(rng.range(0x20, 0x7e) as u32).unwrap(),
            1 => *rng.pick(&['ä', 'ß', 'é', '中', '🦀', '\u{0}', '\u{ffff}', '\n', '\u{10ffff}']),
            2 => char::from_u32(rng.below(0xd800) as u32).unwrap(),
            _ => (b'a' + rng.below(26) as u8) as char,
        });
    }
    s
}
fn gen_en(rng: &mut Rng, depth: usize) -> En {
    match rng.below(if depth > 3 { 5 } else { 6 }) {
        0 => En::A,
        1 => En::B(rng.next() as u32),
        2 => En::C(rng.next() as i64, gen_string(rng)),
        3 => {
            let n = len(rng);
            En::D { x: if rng.chance(1, 2) { Some(rng.below(1000) as f32 / 3.0) } else { None }, y: rng.bytes(n) }
        }
        4 => En::E(Unit),
        _ => En::F(Box::new(gen_en(rng, depth + 1))),
    }
}
fn gen_rich(rng: &mut Rng, depth: usize) -> Rich {
    let nl = len(rng);
    let nx = len(rng);
    Rich {
        a: rng.next() as i8,
        b: rng.next() as i16,
        c: rng.next() as i32,
        d: *rng.pick(&[i64::MIN, -1, 0, i64::MAX, 77]),
        e: rng.next() as u8,
        f: rng.next() as u16,
        g: rng.next() as u32,
        h: *rng.pick(&[0, u64::MAX, 1 << 63, 12345]),
        i: *rng.pick(&[0.0, -0.0, f64::MIN_POSITIVE, f64::INFINITY, 1.5e300, -7.25]),
        f3: *rng.pick(&[0.0, f32::MAX, f32::NEG_INFINITY, 0.1]),
        j: *rng.pick(&['a', '\u{0}', 'ß', '🦀', '\u{10ffff}', '\u{d7ff}', '\u{e000}']),
        k: gen_string(rng),
        l: rng.bytes(nl),
        m: if depth < 2 && rng.chance(1, 4) { Some(Box::new(gen_rich(rng, depth + 1))) } else { None },
        n: (0..rng.below(5)).map(|_| (rng.next() as u32, gen_string(rng))).collect(),
        o: (rng.next() as u8, rng.chance(1, 2), gen_string(rng)),
        p: gen_en(rng, 0),
        q: (0..rng.below(4)).map(|_| gen_en(rng, 0)).collect(),
        r: Unit,
        s: Newtype(rng.next()),
        t: TupleS(rng.next() as i8, gen_string(rng), *rng.pick(&[None, Some(true), Some(false)])),
        u: if rng.chance(1, 2) { Some(()) } else { None },
        v: [rng.next() as u16, 0, u16::MAX],
        w: if rng.chance(1, 2) { Some(gen_path(rng)) } else { None },
        x: Bytes::from(rng.bytes(nx)),
        y: *rng.pick(&[None, Some(None), Some(Some(7))]),
        z: gen_ip(rng),
    }
}
pub fn gen_ip(rng: &mut Rng) -> IpAddr {
    match rng.below(4) {
        0 => IpAddr::V4(*rng.pick(&[Ipv4Addr::LOCALHOST, Ipv4Addr::UNSPECIFIED, Ipv4Addr::BROADCAST, Ipv4Addr::new(10, 0, 0, 1)])),
        1 => IpAddr::V4(Ipv4Addr::from(rng.next() as u32)),
        2 => IpAddr::V6(*rng.pick(&[
            Ipv6Addr::LOCALHOST,
            Ipv6Addr::UNSPECIFIED,
            "fe80::1".parse().unwrap(),
            "::ffff:10.1.2.3".parse().unwrap(),
            "2001:db8::ff00:42:8329".parse().unwrap(),
        ])),
        _ => IpAddr::V6(Ipv6Addr::from((rng.next() as u128) << 64 | rng.next() as u128)),
    }
}
pub fn gen_system_path(rng: &mut Rng) -> SystemPath {
    let t = *rng.pick(&[Transport::Local, Transport::Tcp, Transport::Udp]);
    let any = rng.next() as u16;
    let port = *rng.pick(&[0, 1, 80, 8080, u16::MAX, any]);
    SystemPath::new(t, gen_ip(rng), port)
}
pub fn gen_segment(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => gen_string(rng).chars().filter(|c| !"/#*?".contains(*c)).take(40).collect::<String>() + "x",
        1 => rng.pick(&["a b", "a:b", "tcp:", "..", ".", "%2F", "[::1]", "a\\b", "üñí", "-", "_", "a.b"]).to_string(),
        2 => "x".repeat(rng.range(1, 300)),
        _ => {
            let n = rng.range(1, 10);
            (0..n).map(|_| *rng.pick(&['a', 'b', 'z', '0', '9', '-', '_', 'Q'])).collect()
        }
    }
}
pub fn gen_segments(rng: &mut Rng) -> Vec<String> {
    let n = *rng.pick(&[0usize, 1, 1, 2, 2, 3, 5, 20]);
    let mut v: Vec<String> = (0..n).map(|_| gen_segment(rng)).collect();
    match rng.below(6) {
        0 => v.push("*".into()),
        1 => v.push("?".into()),
        _ => (),
    }
    v
}
pub fn gen_path(rng: &mut Rng) -> ActorPath {
    let s = gen_system_path(rng);
    if rng.chance(1, 2) {
        ActorPath::Unique(UniquePath::with_system(s, gen_uuid(rng)))
    } else {
        ActorPath::Named(NamedPath::with_system(s, gen_segments(rng)))
    }
}
pub fn gen_uuid(rng: &mut Rng) -> uuid::Uuid {
    match rng.below(6) {
        0 => uuid::Uuid::nil(),
        1 => uuid::Uuid::from_u128(u128::MAX),
        _ => uuid::Uuid::from_u128((rng.next() as u128) << 64 | rng.next() as u128),
    }
}

/// Types with a hand-written or serde-derived equality that also have to survive as text etc.
pub trait Same {
    fn same(&self, o: &Self) -> bool;
}
impl<T: PartialEq> Same for T {
    fn same(&self, o: &T) -> bool {
        self == o
    }
}

fn small_buffers(rng: &mut Rng) -> BufferConfig {
    let mut c = BufferConfig::default();
    let size = *rng.pick(&[128usize, 128, 129, 131, 160, 200, 256, 500, 1024, 128_000]);
    c.chunk_size(size);
    c.encode_buf_min_free_space(*rng.pick(&[0usize, 1, 8, 16, 64, 100, 127]));
    c.initial_chunk_count(rng.range(1, 4));
    c.max_chunk_count(4096);
    c
}
fn fill(eb: &mut EncodeBuffer, rng: &mut Rng) {
    // leave a random rest in the current chunk
    let n = match rng.below(4) {
        0 => 0,
        1 => eb.writeable_len().saturating_sub(rng.range(0, 16)),
        _ => rng.below(eb.writeable_len() + 1),
    };
    if n > 0 {
        let data = rng.bytes(n);
        let mut e = eb.get_buffer_encoder().unwrap();
        e.put_slice(&data);
        let _ = e.get_chunk_lease();
    }
}

fn read_all(mut b: impl Buf) -> Vec<u8> {
    let mut v = Vec::new();
    while b.has_remaining() {
        let n = b.chunk().len();
        v.extend_from_slice(b.chunk());
        b.advance(n);
    }
    v
}

struct Ctx<'a> {
    rep: &'a Arc<Report>,
    case: u64,
    name: &'static str,
}
impl Ctx<'_> {
    fn bad(&self, sig: &str, detail: String) {
        self.rep.violation(&format!("{}:{}", self.name, sig), self.case, detail.chars().take(1500).collect(), json!({}));
    }
}

/// Runs `f`, reporting any panic in it.
fn guarded<R>(cx: &Ctx, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(_) => {
            let p = take_local_panics();
            take_panics();
            cx.bad(&format!("panic-{}", what), format!("{:?}", p));
            None
        }
    }
}

fn check_bytes<T, D>(cx: &Ctx, rng: &mut Rng, v: &T, how: &str, data: &[u8])
where
    T: Debug + Same + 'static,
    D: Deserialiser<T>,
{
    let n = rng.below(20);
    let tail = rng.bytes(n);
    let mut all = data.to_vec();
    all.extend_from_slice(&tail);
    let mut bufs: Vec<(&str, Box<dyn Buf>)> = vec![
        ("slice", Box::new(std::io::Cursor::new(all.clone()))),
        ("bytes", Box::new(Bytes::from(all.clone()))),
        ("split", Box::new(SplitBuf::cut(&all, rng))),
    ];
    {
        let mut eb = EncodeBuffer::with_config(&small_buffers(rng), &None);
        fill(&mut eb, rng);
        let mut e = eb.get_buffer_encoder().unwrap();
        if !all.is_empty() {
            e.put_slice(&all);
            let l = e.get_chunk_lease().unwrap();
            drop(e);
            // (the buffer lives on through `eb`)
            let boxed: Box<dyn Buf> = if rng.chance(1, 2) { Box::new((l, eb).0) } else { Box::new(l.into_chunk_ref()) };
            // leases do not own their memory without their pool
            drop(boxed);
        }
    }
    let mut eb = EncodeBuffer::with_config(&small_buffers(rng), &None);
    fill(&mut eb, rng);
    if !all.is_empty() {
        let mut e = eb.get_buffer_encoder().unwrap();
        e.put_slice(&all);
        let l = e.get_chunk_lease().unwrap();
        if rng.chance(1, 2) {
            bufs.push(("lease", Box::new(l)));
        } else {
            bufs.push(("ref", Box::new(l.into_chunk_ref())));
        }
    }
    for (kind, mut b) in bufs {
        let r = guarded(cx, &format!("deserialise-{}", kind), || D::deserialise(&mut *b));
        match r {
            None => (),
            Some(Err(e)) => cx.bad("own-bytes-refused", format!("{:?} serialised by {} and read from {}: {}", v, how, kind, e)),
            Some(Ok(w)) => {
                if !v.same(&w) {
                    cx.bad("different-value", format!("{:?} serialised by {} came back from {} as {:?}", v, how, kind, w));
                }
                if b.remaining() != tail.len() {
                    cx.bad("consumed-wrong-length", format!("{:?} via {}/{}: {} bytes left, expected {}", v, how, kind, b.remaining(), tail.len()));
                }
            }
        }
        cx.rep.count(&format!("read_from_{}", kind), 1);
    }
    drop(eb);
}

struct WrongId;
impl Deserialiser<u64> for WrongId {
    const SER_ID: SerId = 0xdead_beef;
    fn deserialise(_b: &mut dyn Buf) -> Result<u64, SerError> {
        Ok(1)
    }
}

/// All ways to serialise one value agree and lead back to it.
fn roundtrip<T, D>(rep: &Arc<Report>, case: u64, rng: &mut Rng, name: &'static str, v: T, mk: impl Fn() -> Box<dyn Serialisable>)
where
    T: Debug + Same + Send + 'static,
    D: Deserialiser<T>,
{
    let cx = Ctx { rep, case, name };
    let ser = mk();
    if ser.ser_id() != D::SER_ID {
        cx.bad("ser-id-mismatch", format!("serialises as {} but deserialises {}", ser.ser_id(), D::SER_ID));
    }
    let mut plain: Vec<u8> = Vec::new();
    match guarded(&cx, "serialise", || ser.serialise(&mut plain)) {
        Some(Ok(())) => (),
        Some(Err(e)) => return cx.bad("serialise-failed", format!("{:?}: {}", v, e)),
        None => return,
    }
    check_bytes::<T, D>(&cx, rng, &v, "plain", &plain);
    let mut bm = BytesMut::new();
    if let Some(r) = guarded(&cx, "serialise-bytesmut", || ser.serialise(&mut bm)) {
        if r.is_err() || bm[..] != plain[..] {
            cx.bad("bytesmut-differs", format!("{:?}: {:?}", v, r.err()));
        }
    }
    // eager
    match guarded(&cx, "serialised", || ser.serialised()) {
        Some(Ok(s)) => {
            if s.data[..] != plain[..] || s.ser_id != D::SER_ID {
                cx.bad("eager-differs", format!("{:?}: id {} data {:?}", v, s.ser_id, &s.data[..s.data.len().min(64)]));
            }
        }
        Some(Err(e)) => cx.bad("eager-refused", format!("{:?}: {}", v, e)),
        None => (),
    }
    let src = gen_path(rng);
    let dst = gen_path(rng);
    // pooled buffers
    let cfg = small_buffers(rng);
    let mut eb = EncodeBuffer::with_config(&cfg, &None);
    for round in 0..rng.range(1, 4) {
        fill(&mut eb, rng);
        let mut keep: Vec<(ChunkRef, Vec<u8>)> = Vec::new();
        // preserialised
        let pre = guarded(&cx, "preserialise", || {
            let mut e = eb.get_buffer_encoder()?;
            kompact::prelude::ser_helpers::preserialise_msg(&*ser, &mut e)
        });
        match pre {
            None => return,
            Some(Err(e)) => cx.bad("preserialise-failed", format!("{:?} round {} {:?}: {}", v, round, cfg, e)),
            Some(Ok(c)) => {
                let bytes = read_all(c.clone());
                let mut want = (D::SER_ID as u64).to_be_bytes().to_vec();
                want.extend_from_slice(&plain);
                if bytes != want {
                    cx.bad("preserialised-differs", format!("{:?} {:?}: {} bytes instead of {}", v, cfg, bytes.len(), want.len()));
                }
                // put headers around it
                let full = guarded(&cx, "preserialise-frame", || {
                    let mut e = eb.get_buffer_encoder()?;
                    kompact::prelude::ser_helpers::serialise_msg_with_preserialised(&src, &dst, c.clone(), &mut e)
                });
                if let Some(Ok(f)) = full {
                    check_frame::<T, D>(&cx, rng, &v, "preserialised", &read_all(f), &src, &dst, &plain);
                } else if let Some(Err(e)) = full {
                    cx.bad("preserialised-frame-failed", format!("{}", e));
                }
                keep.push((c, want));
            }
        }
        // lazily serialised into the network buffer
        let lazy = guarded(&cx, "serialise-msg", || {
            let mut e = eb.get_buffer_encoder()?;
            kompact::prelude::ser_helpers::serialise_msg(&src, &dst, &*ser, &mut e)
        });
        match lazy {
            None => return,
            Some(Err(e)) => cx.bad("serialise-msg-failed", format!("{:?} {:?}: {}", v, cfg, e)),
            Some(Ok(l)) => {
                let c = l.into_chunk_ref();
                let b = read_all(c.clone());
                check_frame::<T, D>(&cx, rng, &v, "buffered", &b, &src, &dst, &plain);
                // and the way the local dispatcher reads it
                let mut c2 = c.clone();
                c2.advance(9);
                if let Some(r) = guarded(&cx, "deserialise-chunk-ref", || ser_helpers::deserialise_chunk_ref(c2)) {
                    match r {
                        Ok(nm) => {
                            // forward it once, or more often, before looking at it
                            let mut nm = nm;
                            for hop in 0..rng.below(3) {
                                let next = gen_path(rng);
                                nm.receiver = next.clone();
                                let f = guarded(&cx, "embed", || {
                                    let mut e = eb.get_buffer_encoder()?;
                                    ser_helpers::embed_msg(nm, &mut e)
                                });
                                match f {
                                    Some(Ok(f)) => {
                                        let b = read_all(f.clone());
                                        check_frame::<T, D>(&cx, rng, &v, "forwarded", &b, &src, &next, &plain);
                                        let mut f = f;
                                        f.advance(9);
                                        match ser_helpers::deserialise_chunk_ref(f) {
                                            Ok(m) => nm = m,
                                            Err(e) => return cx.bad("forwarded-unreadable", format!("hop {}: {}", hop, e)),
                                        }
                                    }
                                    Some(Err(e)) => return cx.bad("forward-failed", format!("{}", e)),
                                    None => return,
                                }
                                cx.rep.count("forwarding_hops", 1);
                            }
                            unpack::<T, D>(&cx, &v, nm, "chunk-ref")
                        }
                        Err(e) => cx.bad("own-message-refused", format!("{}", e)),
                    }
                }
                keep.push((c, b));
            }
        }
        // as a message holding plain bytes, forwarded
        let nm = NetMessage::with_bytes(D::SER_ID, src.clone(), dst.clone(), Bytes::from(plain.clone()));
        if let Some(r) = guarded(&cx, "embed-bytes", || {
            let mut e = eb.get_buffer_encoder()?;
            ser_helpers::embed_msg(nm, &mut e)
        }) {
            match r {
                Ok(f) => check_frame::<T, D>(&cx, rng, &v, "embedded-bytes", &read_all(f), &src, &dst, &plain),
                Err(e) => cx.bad("embed-bytes-failed", format!("{}", e)),
            }
        }
        let nm = NetMessage::with_box(D::SER_ID, src.clone(), dst.clone(), mk());
        match nm.try_clone() {
            Ok(c) => unpack::<T, D>(&cx, &v, c, "cloned-box"),
            Err(e) => cx.bad("clone-failed", format!("{}", e)),
        }
        if let Some(r) = guarded(&cx, "embed-box", || {
            let mut e = eb.get_buffer_encoder()?;
            ser_helpers::embed_msg(nm, &mut e)
        }) {
            match r {
                Ok(f) => check_frame::<T, D>(&cx, rng, &v, "embedded-box", &read_all(f), &src, &dst, &plain),
                Err(e) => cx.bad("embed-box-failed", format!("{}", e)),
            }
        }
        for (c, want) in keep {
            if read_all(c) != want {
                cx.bad("buffer-changed-while-held", format!("{:?} {:?}", v, cfg));
            }
        }
    }
    // eager network message
    match guarded(&cx, "serialise-to-msg", || ser_helpers::serialise_to_msg(src.clone(), dst.clone(), mk())) {
        Some(Ok(nm)) => unpack::<T, D>(&cx, &v, nm, "serialise_to_msg"),
        Some(Err(e)) => cx.bad("serialise-to-msg-failed", format!("{:?}: {}", v, e)),
        None => (),
    }
    // heap allocated
    unpack::<T, D>(&cx, &v, NetMessage::with_box(D::SER_ID, src.clone(), dst.clone(), mk()), "boxed");
    rep.eval(mix(hash_bytes(name.as_bytes()), hash_bytes(&plain)), true);
    rep.count(&format!("values_{}", name), 1);
    if rep.wants_sample() && rng.chance(1, 40) {
        rep.sample(json!({"type": name, "value": format!("{:?}", v).chars().take(200).collect::<String>(), "bytes": plain.len(), "buffers": format!("{:?}", cfg)}));
    }
}

fn check_frame<T, D>(cx: &Ctx, rng: &mut Rng, v: &T, how: &str, b: &[u8], src: &ActorPath, dst: &ActorPath, plain: &[u8])
where
    T: Debug + Same + Send + 'static,
    D: Deserialiser<T>,
{
    if b.len() < 9 || b[..4] != 0xC0A1BA11u32.to_be_bytes() || b[4..8] != ((b.len() - 9) as u32).to_be_bytes() || b[8] != 2 {
        return cx.bad("bad-frame-head", format!("{}: {:?} of a frame with {} bytes", how, &b[..b.len().min(9)], b.len()));
    }
    if !b.ends_with(plain) {
        cx.bad("frame-content-differs", format!("{} of {:?}", how, v));
    }
    let body = Bytes::copy_from_slice(&b[9..]);
    match guarded(cx, "deserialise-bytes", || ser_helpers::deserialise_bytes(body)) {
        None => (),
        Some(Err(e)) => cx.bad("own-frame-refused", format!("{} from {} to {}: {}", how, src, dst, e)),
        Some(Ok(m)) => {
            if m.sender != *src || m.receiver != *dst {
                cx.bad("addresses-differ", format!("{}: {} -> {} became {} -> {}", how, src, dst, m.sender, m.receiver));
            }
            if *m.ser_id() != D::SER_ID {
                cx.bad("ser-id-differs", format!("{}: {} became {}", how, D::SER_ID, m.ser_id()));
            }
            unpack::<T, D>(cx, v, m, how);
        }
    }
    let _ = rng;
    cx.rep.count("frames_checked", 1);
}

/// The wrong type is refused and leaves the message usable.
fn unpack<T, D>(cx: &Ctx, v: &T, m: NetMessage, how: &str)
where
    T: Debug + Same + Send + 'static,
    D: Deserialiser<T>,
{
    let (s, r) = (m.sender.clone(), m.receiver.clone());
    let m = match m.try_deserialise::<u64, WrongId>() {
        Err(UnpackError::NoIdMatch(m)) => m,
        o => return cx.bad("wrong-id-not-refused", format!("{} {:?}", how, o.is_ok())),
    };
    let m = match m.try_into_deserialised::<u64, WrongId>() {
        Err(UnpackError::NoIdMatch(m)) => m,
        o => return cx.bad("wrong-id-not-refused", format!("{} {:?}", how, o.is_ok())),
    };
    if m.sender != s || m.receiver != r {
        cx.bad("refusal-changed-message", format!("{}", how));
    }
    if let Some(x) = guarded(cx, "unpack", || m.try_deserialise::<T, D>()) {
        match x {
            Ok(w) if v.same(&w) => (),
            Ok(w) => cx.bad("different-value", format!("{}: {:?} became {:?}", how, v, w)),
            Err(e) => cx.bad("message-unreadable", format!("{}: {:?} {:?}", how, v, e)),
        }
    }
    cx.rep.count("messages_unpacked", 1);
}

struct PSer<M>(std::marker::PhantomData<M>);
#[derive(Debug, Clone, PartialEq)]
struct PVal<M: protobuf::Message>(M);
impl<M: protobuf::Message + Debug> Deserialiser<PVal<M>> for PSer<M> {
    const SER_ID: SerId = serialisation_ids::PBUF;
    fn deserialise(buf: &mut dyn Buf) -> Result<PVal<M>, SerError> {
        // protobuf messages extend to the end of the data
        let d = kompact::protobuf_serialisers::ProtobufDeser { msg: M::new(), buf };
        d.get_deserialised().map(PVal)
    }
}

fn proto<M: protobuf::Message + Clone + PartialEq + Debug>(rep: &Arc<Report>, case: u64, rng: &mut Rng, name: &'static str, m: M) {
    let cx = Ctx { rep, case, name };
    let mk = || -> Box<dyn Serialisable> { (m.clone(), kompact::protobuf_serialisers::ProtobufSer).into() };
    let mut plain = Vec::new();
    if let Err(e) = mk().serialise(&mut plain) {
        return cx.bad("serialise-failed", format!("{}", e));
    }
    match guarded(&cx, "serialised", || mk().serialised()) {
        Some(Ok(s)) if s.data[..] == plain[..] => (),
        Some(Ok(_)) => cx.bad("eager-differs", String::new()),
        Some(Err(e)) => cx.bad("eager-refused", format!("{}", e)),
        None => (),
    }
    let cfg = small_buffers(rng);
    let mut eb = EncodeBuffer::with_config(&cfg, &None);
    for _ in 0..3 {
        fill(&mut eb, rng);
        let r = guarded(&cx, "preserialise", || {
            let mut e = eb.get_buffer_encoder()?;
            ser_helpers::preserialise_msg(&*mk(), &mut e)
        });
        match r {
            Some(Ok(mut c)) => {
                c.advance(8);
                if read_all(c.clone()) != plain {
                    cx.bad("preserialised-differs", format!("{:?}", cfg));
                }
                let mut d: Vec<(&str, Box<dyn Buf>)> = vec![("ref", Box::new(c)), ("bytes", Box::new(Bytes::from(plain.clone()))), ("split", Box::new(SplitBuf::cut(&plain, rng)))];
                for (k, b) in d.iter_mut() {
                    match guarded(&cx, &format!("deserialise-{}", k), || PSer::<M>::deserialise(&mut **b)) {
                        Some(Ok(w)) if w.0 == m => (),
                        Some(o) => cx.bad("different-value", format!("{}: {:?}", k, o)),
                        None => (),
                    }
                }
            }
            Some(Err(e)) => cx.bad("preserialise-failed", format!("{} bytes with {:?}: {}", plain.len(), cfg, e)),
            None => (),
        }
    }
    rep.eval(mix(hash_bytes(name.as_bytes()), hash_bytes(&plain)), true);
    rep.count("values_protobuf", 1);
}

fn ids(rep: &Arc<Report>) {
    use kompact::prelude::serialisation_ids as i;
    let all = [
        ("DISPATCH_ENVELOPE", i::DISPATCH_ENVELOPE),
        ("UNIQUE_PATH", i::UNIQUE_PATH),
        ("NAMED_PATH", i::NAMED_PATH),
        ("SYSTEM_PATH", <SystemPath as Deserialiser<SystemPath>>::SER_ID),
        ("ACTOR_PATH", <ActorPath as Deserialiser<ActorPath>>::SER_ID),
        ("STR", <String as Deserialiser<String>>::SER_ID),
        ("U64", <u64 as Deserialiser<u64>>::SER_ID),
        ("UNIT", <() as Deserialiser<()>>::SER_ID),
        ("SERDE", i::SERDE),
        ("PBUF", i::PBUF),
    ];
    for (x, a) in &all {
        for (y, b) in &all {
            if x < y && a == b {
                rep.violation(&format!("same-id-{}-{}", x, y), 0, format!("{} and {} both have serialisation id {}", x, y, a), json!({}));
            }
        }
    }
}

pub fn s01(rep: &Arc<Report>) {
    rep.rule("a case is one value of one type taken through every way of serialising it; distinct by type and bytes");
    rep.assume("user-defined serialisers may write more or less than their size hint, and in any of the ways of the BufMut interface");
    ids(rep);
    rep.run_cases(8, 1.0, u64::MAX, |rep, case, seed| {
        let rng = &mut Rng::new(seed);
        macro_rules! native {
            ($n:literal, $t:ty, $v:expr) => {{
                let v: $t = $v;
                let c = v.clone();
                roundtrip::<$t, $t>(rep, case, rng, $n, v, move || Box::new(c.clone()));
            }};
        }
        macro_rules! serde {
            ($n:literal, $t:ty, $v:expr) => {{
                let v = W::<$t>($v);
                let c = v.clone();
                roundtrip::<W<$t>, Serde>(rep, case, rng, $n, v, move || (c.clone(), Serde).into());
            }};
        }
        match case % 30 {
            0 => native!("string", String, gen_string(rng)),
            1 => native!("u64", u64, *rng.pick(&[0, 1, u64::MAX, 1 << 32, 255, 0x0102030405060708])),
            2 => native!("unit", (), ()),
            3 | 4 => native!("actor-path", ActorPath, gen_path(rng)),
            5 => {
                // its heap-allocated form is not supported
                let v = gen_system_path(rng);
                let cx = Ctx { rep, case, name: "system-path" };
                let mut b = Vec::new();
                v.serialise(&mut b).unwrap();
                if v.size_hint() != Some(b.len()) {
                    cx.bad("size-hint", format!("{:?} vs {}", v.size_hint(), b.len()));
                }
                check_bytes::<SystemPath, SystemPath>(&cx, rng, &v, "plain", &b);
                rep.eval(hash_bytes(&b), true);
            }
            6 => serde!("serde-u8", u8, rng.next() as u8),
            7 => serde!("serde-u16", u16, rng.next() as u16),
            8 => serde!("serde-u32", u32, rng.next() as u32),
            9 => serde!("serde-u64", u64, rng.next()),
            10 => serde!("serde-i8", i8, rng.next() as i8),
            11 => serde!("serde-i16", i16, rng.next() as i16),
            12 => serde!("serde-i32", i32, rng.next() as i32),
            13 => serde!("serde-i64", i64, rng.next() as i64),
            14 => serde!("serde-f32", f32, rng.next() as i32 as f32 / 3.0),
            15 => serde!("serde-f64", f64, rng.next() as i64 as f64 / 3.0),
            16 => serde!("serde-char", char, char::from_u32(rng.next() as u32 % 0x110000).unwrap_or('x')),
            17 => serde!("serde-bool", bool, rng.chance(1, 2)),
            18 => serde!("serde-string", String, gen_string(rng)),
            19 => serde!("serde-bytes", Bytes, {
                let n = len(rng);
                Bytes::from(rng.bytes(n))
            }),
            20 => serde!("serde-option", Option<u64>, if rng.chance(1, 3) { None } else { Some(rng.next()) }),
            21 => serde!("serde-vec", Vec<String>, (0..rng.below(6)).map(|_| gen_string(rng)).collect()),
            22 => serde!("serde-enum", En, gen_en(rng, 0)),
            23 => serde!("serde-map", BTreeMap<String, Vec<u64>>, (0..rng.below(6)).map(|_| (gen_string(rng), (0..rng.below(5)).map(|_| rng.next()).collect())).collect()),
            24 => serde!("serde-unit", (), ()),
            25 => serde!("serde-actor-path", ActorPath, gen_path(rng)),
            26 | 27 => {
                let v = gen_rich(rng, 0);
                let c = v.clone();
                roundtrip::<Rich, Serde>(rep, case, rng, "serde-rich", v, move || (c.clone(), Serde).into());
            }
            28 => {
                let v = gen_mine(rng);
                let c = v.clone();
                let hint = *rng.pick(&[None, None, Some(0), Some(4), Some(100), Some(130), Some(1000), Some(5000)]);
                roundtrip::<Mine, MineSer>(rep, case, rng, "user-defined", v, move || (c.clone(), MineSer(hint)).into());
            }
            _ => {
                use protobuf::well_known_types::{any::Any, duration::Duration, wrappers::*};
                match rng.below(4) {
                    0 => {
                        let mut m = StringValue::new();
                        m.value = gen_string(rng);
                        proto(rep, case, rng, "protobuf-string", m)
                    }
                    1 => {
                        let mut m = BytesValue::new();
                        let n = *rng.pick(&[0usize, 5, 100, 9000, 20000]);
                        m.value = rng.bytes(n);
                        proto(rep, case, rng, "protobuf-bytes", m)
                    }
                    2 => {
                        let mut m = Duration::new();
                        if rng.chance(2, 3) {
                            m.seconds = rng.next() as i64;
                            m.nanos = rng.below(1_000_000_000) as i32;
                        }
                        proto(rep, case, rng, "protobuf-duration", m)
                    }
                    _ => {
                        let mut m = Any::new();
                        m.type_url = gen_string(rng);
                        let n = len(rng);
                        m.value = rng.bytes(n);
                        proto(rep, case, rng, "protobuf-any", m)
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------ S02

fn mutate(rng: &mut Rng, good: &[u8]) -> Vec<u8> {
    let mut v = good.to_vec();
    match rng.below(8) {
        0 => {
            let n = rng.below(v.len() + 1);
            v.truncate(n)
        }
        1 => {
            let n = rng.range(0, 60);
            v = rng.bytes(n)
        }
        2 => {
            // a wrong length somewhere
            if v.len() >= 8 {
                let p = rng.below(v.len() - 7);
                let x = *rng.pick(&[u64::MAX, 1 << 40, 1 << 63, (v.len() as u64) + 1, 0, 1 << 31]);
                v[p..p + 8].copy_from_slice(&x.to_be_bytes());
            }
        }
        3 => {
            if v.len() >= 2 {
                let p = rng.below(v.len() - 1);
                let x = *rng.pick(&[u16::MAX, 0, 1, v.len() as u16, 256]);
                v[p..p + 2].copy_from_slice(&x.to_be_bytes());
            }
        }
        4 => {
            let x = if v.is_empty() { 0 } else { rng.below(v.len()) };
            let n = rng.range(1, 9);
            let ins = rng.bytes(n);
            v.splice(x..x, ins);
        }
        5 => {
            if !v.is_empty() {
                let a = rng.below(v.len());
                let b = rng.range(a, v.len());
                v.drain(a..b);
            }
        }
        _ => {
            for _ in 0..rng.range(1, 4) {
                if !v.is_empty() {
                    let p = rng.below(v.len());
                    v[p] = match rng.below(4) {
                        0 => 0xff,
                        1 => 0,
                        2 => v[p] ^ (1 << rng.below(8)),
                        _ => rng.next() as u8,
                    };
                }
            }
        }
    }
    v
}

fn feed<T: Debug + 'static, D: Deserialiser<T>>(rep: &Arc<Report>, case: u64, rng: &mut Rng, name: &'static str, good: &[u8], valid: impl Fn(&T) -> bool) {
    let cx = Ctx { rep, case, name };
    let data = mutate(rng, good);
    let mut bufs: Vec<(&str, Box<dyn Buf>)> = vec![("bytes", Box::new(Bytes::from(data.clone()))), ("split", Box::new(SplitBuf::cut(&data, rng)))];
    let mut eb = EncodeBuffer::with_config(&small_buffers(rng), &None);
    if !data.is_empty() {
        let mut e = eb.get_buffer_encoder().unwrap();
        e.put_slice(&data);
        let l = e.get_chunk_lease().unwrap();
        bufs.push(if rng.chance(1, 2) { ("lease", Box::new(l)) } else { ("ref", Box::new(l.into_chunk_ref())) });
    } else {
        bufs.push(("lease", Box::new(ChunkLease::empty())));
    }
    let mut outs: Vec<(String, usize)> = Vec::new();
    for (kind, mut b) in bufs {
        let before = b.remaining();
        match guarded(&cx, &format!("deserialise-{}", kind), || D::deserialise(&mut *b)) {
            None => (),
            Some(Ok(t)) => {
                if !valid(&t) {
                    cx.bad("invalid-value", format!("{:?} from {:?}", t, data));
                }
                if b.remaining() > before {
                    cx.bad("read-past-the-data", format!("{} of {} left", b.remaining(), before));
                }
                rep.count("accepted", 1);
                // protobuf messages extend to the end of the data
                outs.push((format!("{:?}", t), if name == "protobuf" { 0 } else { b.remaining() }));
            }
            Some(Err(_)) => {
                rep.count("refused", 1);
                outs.push(("err".into(), 0));
            }
        }
    }
    if outs.windows(2).any(|w| w[0] != w[1]) {
        cx.bad("outcome-depends-on-chunking", format!("{:?} from {:?}", outs, data));
    }
    rep.eval(mix(hash_bytes(name.as_bytes()), hash_bytes(&data)), true);
    rep.count(&format!("inputs_{}", name), 1);
}

fn utf8(s: &str) -> bool {
    std::str::from_utf8(s.as_bytes()).is_ok()
}
pub fn valid_path(p: &ActorPath) -> bool {
    match p {
        ActorPath::Unique(_) => true,
        ActorPath::Named(n) => n.path_ref().iter().all(|s| utf8(s)) && kompact::prelude_bench::validate_lookup_path(n.path_ref()).is_ok(),
    }
}
pub fn enc(s: &dyn Serialisable) -> Vec<u8> {
    let mut v = Vec::new();
    s.serialise(&mut v).unwrap();
    v
}
fn encs<T: Serialize + SerialisationId + Debug + Send + 'static>(t: T) -> Vec<u8> {
    let mut v = Vec::new();
    Serde.serialise(&t, &mut v).unwrap();
    v
}

pub fn s02(rep: &Arc<Report>) {
    rep.rule("a case is one malformed byte string given to one deserialiser through four kinds of buffers; distinct by type and bytes");
    rep.assume("sequences of zero-sized elements (whose length costs no bytes) are left out");
    rep.run_cases(8, 1.0, u64::MAX, |rep, case, seed| {
        let rng = &mut Rng::new(seed);
        let g = &mut Rng::new(mix(seed, 1));
        match case % 16 {
            0 => feed::<String, String>(rep, case, rng, "string", &enc(&gen_string(g)), |s| utf8(s)),
            1 => feed::<u64, u64>(rep, case, rng, "u64", &enc(&5u64), |_| true),
            2 => feed::<(), ()>(rep, case, rng, "unit", &[], |_| true),
            3 | 4 => feed::<ActorPath, ActorPath>(rep, case, rng, "actor-path", &enc(&gen_path(g)), valid_path),
            5 => feed::<SystemPath, SystemPath>(rep, case, rng, "system-path", &enc(&gen_system_path(g)), |_| true),
            6 => feed::<Rich, Serde>(rep, case, rng, "serde-rich", &encs(gen_rich(g, 0)), |r| utf8(&r.k) && r.w.as_ref().map(valid_path).unwrap_or(true)),
            7 => feed::<W<Vec<String>>, Serde>(rep, case, rng, "serde-vec", &encs(W(vec![gen_string(g), gen_string(g)])), |v| v.0.iter().all(|s| utf8(s))),
            8 => feed::<W<BTreeMap<String, Vec<u64>>>, Serde>(rep, case, rng, "serde-map", &encs(W((0..3).map(|_| (gen_string(g), vec![1u64, 2])).collect::<BTreeMap<_, _>>())), |_| true),
            9 => feed::<W<Bytes>, Serde>(rep, case, rng, "serde-bytes", &encs(W(Bytes::from(g.bytes(30)))), |_| true),
            10 => feed::<W<En>, Serde>(rep, case, rng, "serde-enum", &encs(W(gen_en(g, 0))), |_| true),
            11 => feed::<W<ActorPath>, Serde>(rep, case, rng, "serde-actor-path", &encs(W(gen_path(g))), |p| valid_path(&p.0)),
            12 => {
                let g: (Vec<u8>, u8) = match rng.below(14) {
                    0 => (encs(W(1u8)), 0),
                    1 => (encs(W(1u16)), 1),
                    2 => (encs(W(1u32)), 2),
                    3 => (encs(W(1u64)), 3),
                    4 => (encs(W(1i8)), 4),
                    5 => (encs(W(1i16)), 5),
                    6 => (encs(W(1i32)), 6),
                    7 => (encs(W(1i64)), 7),
                    8 => (encs(W(1f32)), 8),
                    9 => (encs(W(1f64)), 9),
                    10 => (encs(W('a')), 10),
                    11 => (encs(W(true)), 11),
                    12 => (encs(W(Some(4u64))), 12),
                    _ => (encs(W(String::from("abc"))), 13),
                };
                macro_rules! f {
                    ($t:ty) => {
                        feed::<W<$t>, Serde>(rep, case, rng, "serde-primitive", &g.0, |_| true)
                    };
                }
                match g.1 {
                    0 => f!(u8),
                    1 => f!(u16),
                    2 => f!(u32),
                    3 => f!(u64),
                    4 => f!(i8),
                    5 => f!(i16),
                    6 => f!(i32),
                    7 => f!(i64),
                    8 => f!(f32),
                    9 => f!(f64),
                    10 => f!(char),
                    11 => f!(bool),
                    12 => f!(Option<u64>),
                    _ => f!(String),
                }
            }
            13 => {
                use protobuf::well_known_types::any::Any;
                let mut m = Any::new();
                m.type_url = gen_string(rng);
                m.value = rng.bytes(30);
                let good = protobuf::Message::write_to_bytes(&m).unwrap();
                feed::<PVal<Any>, PSer<Any>>(rep, case, rng, "protobuf", &good, |m| utf8(&m.0.type_url));
            }
            14 => {
                // whole messages
                let cx = Ctx { rep, case, name: "message" };
                let mut good = enc(&gen_path(rng));
                good.extend(enc(&gen_path(rng)));
                good.extend((<String as Deserialiser<String>>::SER_ID as u64).to_be_bytes());
                good.extend(enc(&gen_string(rng)));
                let data = mutate(rng, &good);
                let d2 = data.clone();
                let check = |r: Option<Result<NetMessage, SerError>>| match r {
                    Some(Ok(m)) => {
                        if !valid_path(&m.sender) || !valid_path(&m.receiver) {
                            cx.bad("invalid-value", format!("{:?} {:?}", m.sender, m.receiver));
                        }
                        rep.count("accepted", 1);
                        guarded(&cx, "unpack", || m.try_deserialise::<String, String>().map_err(|_| ())).map(|r| r.is_ok())
                    }
                    Some(Err(_)) => {
                        rep.count("refused", 1);
                        None
                    }
                    None => None,
                };
                let a = check(guarded(&cx, "deserialise-bytes", || ser_helpers::deserialise_bytes(Bytes::from(d2))));
                let mut eb = EncodeBuffer::with_config(&small_buffers(rng), &None);
                if !data.is_empty() {
                    let mut e = eb.get_buffer_encoder().unwrap();
                    e.put_slice(&data);
                    let l = e.get_chunk_lease().unwrap();
                    let b = check(if rng.chance(1, 2) {
                        guarded(&cx, "deserialise-lease", || ser_helpers::deserialise_chunk_lease(l))
                    } else {
                        guarded(&cx, "deserialise-ref", || ser_helpers::deserialise_chunk_ref(l.into_chunk_ref()))
                    });
                    if a != b {
                        cx.bad("outcome-depends-on-chunking", format!("{:?} {:?} {:?}", a, b, data));
                    }
                }
                rep.eval(mix(9, hash_bytes(&data)), true);
                rep.count("inputs_message", 1);
            }
            _ => crate::frames::malformed(rep, case, rng),
        }
    });
}

// ------------------------------------------------------------------ D03

/// What the documentation says about segments.
fn segment_ok(s: &str, last: bool) -> bool {
    !s.is_empty() && !s.contains('/') && !s.contains('#') && ((last && (s == "*" || s == "?")) || !s.contains(['*', '?']))
}
fn segments_ok(v: &[String]) -> bool {
    v.iter().enumerate().all(|(i, s)| segment_ok(s, i + 1 == v.len()))
}

pub fn d03(rep: &Arc<Report>) {
    rep.rule("a case is one actor path (printed, parsed, serialised, deserialised) or one text or segment list that may be invalid; distinct by text");
    rep.run_cases(8, 1.0, u64::MAX, |rep, case, seed| {
        let rng = &mut Rng::new(seed);
        let cx = Ctx { rep, case, name: "path" };
        match case % 4 {
            0 | 1 => {
                let p = gen_path(rng);
                let text = p.to_string();
                match guarded(&cx, "parse", || text.parse::<ActorPath>()) {
                    Some(Ok(q)) if q == p => (),
                    Some(Ok(q)) => cx.bad("text-round-trip", format!("{} parsed as {} ({:?} vs {:?})", text, q, p, q)),
                    Some(Err(e)) => cx.bad("own-text-refused", format!("{} ({:?}): {}", text, p, e)),
                    None => (),
                }
                if let Some(r) = guarded(&cx, "try-from", || ActorPath::try_from(text.clone())) {
                    if r.as_ref() != Ok(&p) {
                        cx.bad("try-from-differs", format!("{}: {:?}", text, r));
                    }
                }
                match &p {
                    ActorPath::Unique(u) => {
                        if let Some(r) = guarded(&cx, "parse-unique", || text.parse::<UniquePath>()) {
                            if r.as_ref() != Ok(u) {
                                cx.bad("unique-text-round-trip", format!("{}: {:?}", text, r));
                            }
                        }
                    }
                    ActorPath::Named(n) => {
                        if let Some(r) = guarded(&cx, "parse-named", || text.parse::<NamedPath>()) {
                            if r.as_ref() != Ok(n) {
                                cx.bad("named-text-round-trip", format!("{}: {:?}", text, r));
                            }
                        }
                    }
                }
                let b = enc(&p);
                check_bytes::<ActorPath, ActorPath>(&cx, rng, &p, "plain", &b);
                let sp = p.system().clone();
                check_bytes::<SystemPath, SystemPath>(&cx, rng, &sp, "plain", &enc(&sp));
                // routing segments and further segments
                if let ActorPath::Named(n) = &p {
                    let seg = if rng.chance(1, 3) { rng.pick(&["*", "?", "", "a/b", "a#b", "/", "#"]).to_string() } else { gen_segment(rng) };
                    let mut m = n.clone();
                    let want = segment_ok(&seg, true) && n.path_ref().last().map(|l| l != "*" && l != "?").unwrap_or(true);
                    if let Some(r) = guarded(&cx, "push", || m.push(seg.clone())) {
                        if r.is_ok() != want {
                            cx.bad("push-validation", format!("{} / {:?}: {:?}", n_text(n), seg, r));
                        }
                        let mut v = n.clone_path();
                        if want {
                            v.push(seg.clone());
                        }
                        if m.path_ref() != &v[..] {
                            cx.bad("push-result", format!("{:?} vs {:?}", m, v));
                        }
                    }
                    let rel = gen_segments(rng).join("/");
                    let mut v = n.clone_path();
                    v.extend(rel.split('/').map(|s| s.to_string()));
                    if let Some(r) = guarded(&cx, "append", || n.clone().append(&rel)) {
                        match r {
                            Ok(m) if segments_ok(&v) && m.path_ref() == &v[..] && m.system() == n.system() => (),
                            Err(_) if !segments_ok(&v) => (),
                            o => cx.bad("append", format!("{} append {:?}: {:?}", n_text(n), rel, o)),
                        }
                    }
                }
                rep.eval(hash_bytes(text.as_bytes()), true);
                rep.count(if p.address().is_ipv6() { "ipv6_paths" } else { "ipv4_paths" }, 1);
                if rep.wants_sample() && rng.chance(1, 200) {
                    rep.sample(json!({"path": text}));
                }
            }
            2 => {
                // segment lists
                let n = rng.range(0, 4);
                let segs: Vec<String> = (0..n)
                    .map(|_| match rng.below(4) {
                        0 => rng.pick(&["", "*", "?", "#", "/", "a/b", "a#", "#a", "a*", "?a", "**", "*?", " "]).to_string(),
                        _ => gen_segment(rng),
                    })
                    .collect();
                let sys = gen_system_path(rng);
                let want = segments_ok(&segs);
                if let Some(r) = guarded(&cx, "into-named-vec", || sys.clone().into_named_with_vec(segs.clone())) {
                    match r {
                        Ok(p) if want && p.path_ref() == &segs[..] && *p.system() == sys => (),
                        Err(_) if !want => (),
                        o => cx.bad("segment-validation", format!("{:?}: {:?}", segs, o)),
                    }
                }
                let joined = segs.join("/");
                let back: Vec<String> = joined.split('/').map(|s| s.to_string()).collect();
                if let Some(r) = guarded(&cx, "into-named-string", || sys.clone().into_named_with_string(&joined)) {
                    match r {
                        Ok(p) if segments_ok(&back) && p.path_ref() == &back[..] => (),
                        Err(_) if !segments_ok(&back) => (),
                        o => cx.bad("string-validation", format!("{:?}: {:?}", joined, o)),
                    }
                }
                let ins_ok = segs.iter().all(|s| !s.is_empty() && !s.chars().any(|c| "/#*?".contains(c)));
                if kompact::prelude_bench::validate_insert_path(&segs).is_ok() != ins_ok {
                    cx.bad("insert-validation", format!("{:?}", segs));
                }
                if kompact::prelude_bench::validate_lookup_path(&segs).is_ok() != want {
                    cx.bad("lookup-validation", format!("{:?}", segs));
                }
                rep.eval(mix(2, hash_bytes(format!("{:?}", segs).as_bytes())), true);
                rep.count("segment_lists", 1);
            }
            _ => {
                // text that may be invalid
                let mut t: Vec<char> = gen_path(rng).to_string().chars().collect();
                for _ in 0..rng.range(1, 3) {
                    let p = rng.below(t.len() + 1);
                    match rng.below(4) {
                        0 => {
                            let c = *rng.pick(&['/', '#', ':', '*', '?', '[', ']', '.', ' ', 'x', '-', '0', '9']);
                            t.insert(p, c);
                        }
                        1 if p < t.len() => {
                            t.remove(p);
                        }
                        2 => t.truncate(p),
                        _ => {
                            let s = *rng.pick(&["://", "tcp://", "//", "#", "[::1]:80", "127.0.0.1:99999", ":-1", "local", "%"]);
                            t.splice(p..p, s.chars());
                        }
                    }
                }
                let text: String = t.into_iter().collect();
                let want = reference_parse(&text);
                if let Some(r) = guarded(&cx, "parse-invalid", || text.parse::<ActorPath>()) {
                    match (&r, &want) {
                        (Ok(p), Some(w)) if p == w => rep.count("accepted_texts", 1),
                        (Err(_), None) => rep.count("refused_texts", 1),
                        _ => cx.bad("parse-differs", format!("{:?}: {:?}, expected {:?}", text, r, want)),
                    }
                }
                let _ = guarded(&cx, "parse-unique", || text.parse::<UniquePath>());
                let _ = guarded(&cx, "parse-named", || text.parse::<NamedPath>());
                rep.eval(mix(3, hash_bytes(text.as_bytes())), true);
                rep.count("mutated_texts", 1);
            }
        }
    });
}
fn n_text(n: &NamedPath) -> String {
    ActorPath::Named(n.clone()).to_string()
}
/// An independent reading of the text format: `transport://socket(#uuid | (/segment)*)`.
fn reference_parse(t: &str) -> Option<ActorPath> {
    let (proto, rest) = t.split_once("://")?;
    if rest.contains("://") {
        return None;
    }
    let proto = match proto {
        "tcp" => Transport::Tcp,
        "udp" => Transport::Udp,
        "local" => Transport::Local,
        _ => return None,
    };
    if let Some((sock, id)) = rest.split_once('#') {
        let sock: std::net::SocketAddr = sock.parse().ok()?;
        let id: uuid::Uuid = id.parse().ok()?;
        return Some(ActorPath::Unique(UniquePath::with_socket(proto, sock, id)));
    }
    let mut it = rest.split('/');
    let sock: std::net::SocketAddr = it.next()?.parse().ok()?;
    let segs: Vec<String> = it.map(|s| s.to_string()).collect();
    if !segments_ok(&segs) {
        return None;
    }
    Some(ActorPath::Named(NamedPath::with_socket(proto, sock, segs)))
}
