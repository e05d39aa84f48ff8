//! S04: buffers, leases and pools.
use crate::frames::{catch, drain};
use crate::util::*;
use bytes::{Buf, BufMut, Bytes};
use kompact::net::buffers::*;
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

struct Mem {
    b: Box<[u8]>,
}
impl Chunk for Mem {
    fn as_mut_ptr(&mut self) -> *mut u8 {
        self.b.as_mut_ptr()
    }
    fn len(&self) -> usize {
        self.b.len()
    }
}

/// Counts chunks and overwrites released memory instead of freeing it, so that use after release
/// shows as changed content.
#[derive(Default)]
pub struct Alloc {
    size: usize,
    pub live: AtomicI64,
    pub peak: AtomicI64,
    pub got: AtomicU64,
    released: Mutex<HashMap<usize, u32>>,
    pub faults: Mutex<Vec<String>>,
    graveyard: Mutex<Vec<usize>>,
}
impl std::fmt::Debug for Alloc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Alloc")
    }
}
impl Alloc {
    pub fn new(size: usize) -> Arc<Alloc> {
        let mut a = Alloc::default();
        a.size = size;
        Arc::new(a)
    }
}
impl ChunkAllocator for Alloc {
    fn get_chunk(&self) -> *mut dyn Chunk {
        let l = self.live.fetch_add(1, Ordering::SeqCst) + 1;
        self.peak.fetch_max(l, Ordering::SeqCst);
        self.got.fetch_add(1, Ordering::SeqCst);
        let p: *mut dyn Chunk = Box::into_raw(Box::new(Mem { b: vec![0xEE; self.size].into_boxed_slice() }));
        self.released.lock().unwrap().insert(p as *mut () as usize, 0);
        p
    }
    unsafe fn release(&self, ptr: *mut dyn Chunk) {
        let a = ptr as *mut () as usize;
        let mut r = self.released.lock().unwrap();
        match r.get_mut(&a) {
            Some(n) if *n == 0 => {
                *n = 1;
                self.live.fetch_sub(1, Ordering::SeqCst);
                let c = unsafe { &mut *ptr };
                unsafe { std::ptr::write_bytes(c.as_mut_ptr(), 0xDD, c.len()) };
                self.graveyard.lock().unwrap().push(a);
            }
            Some(_) => self.faults.lock().unwrap().push("a chunk was released twice".into()),
            None => self.faults.lock().unwrap().push("a pointer was released that was never handed out".into()),
        }
    }
}
impl Drop for Alloc {
    fn drop(&mut self) {
        for a in self.graveyard.lock().unwrap().drain(..) {
            drop(unsafe { Box::from_raw(a as *mut Mem) });
        }
    }
}

enum Held {
    Lease(ChunkLease),
    Ref(ChunkRef),
}
struct Item {
    h: Held,
    want: Vec<u8>,
}
impl Item {
    fn content(&self) -> Vec<u8> {
        match &self.h {
            Held::Lease(l) => l.create_byte_clone().to_vec(),
            Held::Ref(r) => drain(r.clone()),
        }
    }
    fn len(&self) -> usize {
        match &self.h {
            Held::Lease(l) => l.remaining(),
            Held::Ref(r) => r.remaining(),
        }
    }
}

fn put_random(e: &mut BufferEncoder<'_>, rng: &mut Rng, want: &mut Vec<u8>, n: usize) {
    let d = rng.bytes(n);
    match rng.below(8) {
        0 => {
            let v = rng.next();
            e.put_u64(v);
            want.extend_from_slice(&v.to_be_bytes());
        }
        1 => {
            let v = rng.next() as u16;
            e.put_u16_le(v);
            want.extend_from_slice(&v.to_le_bytes());
        }
        2 => {
            e.put_u8(d.first().copied().unwrap_or(7));
            want.push(d.first().copied().unwrap_or(7));
        }
        3 => {
            e.put(Bytes::from(d.clone()));
            want.extend_from_slice(&d);
        }
        4 => {
            let k = rng.below(n + 1);
            e.put(Buf::chain(&d[..k], &d[k..]));
            want.extend_from_slice(&d);
        }
        5 => {
            e.put_bytes(0x5A, n);
            want.extend(std::iter::repeat_n(0x5A, n));
        }
        6 => {
            // through the io::Write adapter, as generated code does
            use std::io::Write;
            let mut w = (&mut *e).writer();
            w.write_all(&d).expect("writing into the encoder failed");
            want.extend_from_slice(&d);
        }
        _ => {
            e.put_slice(&d);
            want.extend_from_slice(&d);
        }
    }
}

fn encode_case(rep: &Arc<Report>, case: u64, rng: &mut Rng) {
    let chunk = *rng.pick(&[128usize, 129, 200, 256, 1000]);
    let max = *rng.pick(&[2usize, 3, 4, 8, 30]);
    let init = rng.range(0, max.min(4)).max(if rng.chance(1, 2) { 1 } else { 0 });
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(chunk);
    cfg.max_chunk_count(max);
    cfg.initial_chunk_count(init);
    cfg.encode_buf_min_free_space(*rng.pick(&[0usize, 1, 8, 64, 127]));
    let alloc = Alloc::new(chunk);
    let dynalloc: Arc<dyn ChunkAllocator> = alloc.clone();
    let mut sig = mix(chunk as u64, max as u64);
    let mut exhausted = 0u64;
    let mut recovered = 0u64;
    let mut checks = 0u64;
    let bad = |s: &str, d: String| rep.violation(s, case, format!("{} (chunk {}, max {})", d, chunk, max), json!({}));
    let threads = rng.chance(1, 3);
    let (tx, rx) = std::sync::mpsc::channel::<Item>();
    let worker = threads.then(|| {
        let rep = rep.clone();
        std::thread::spawn(move || {
            let mut n = 0u64;
            while let Ok(i) = rx.recv() {
                let got = i.content();
                n += 1;
                if got != i.want {
                    rep.violation("held-content-changed", case, format!("read on another thread: {} bytes", i.want.len()), json!({}));
                }
            }
            n
        })
    });
    let mut live: Vec<Item> = Vec::new();
    let r = catch(|| {
        let mut eb = EncodeBuffer::with_config(&cfg, &Some(dynalloc.clone()));
        let steps = rng.range(10, 120);
        for _ in 0..steps {
            match rng.below(10) {
                0..=4 => {
                    let mut want = Vec::new();
                    let mut e = match eb.get_buffer_encoder() {
                        Ok(e) => e,
                        Err(_) => {
                            exhausted += 1;
                            let pick = rng.below(live.len().max(1));
                            if pick < live.len() {
                                live.swap_remove(pick);
                            }
                            continue;
                        }
                    };
                    for _ in 0..rng.range(1, 5) {
                        let n = match rng.below(6) {
                            0 => rng.range(1, 8),
                            1 => chunk,
                            2 => rng.range(1, chunk * 3),
                            3 => chunk - 1,
                            _ => rng.range(1, chunk),
                        };
                        put_random(&mut e, rng, &mut want, n);
                    }
                    sig = mix(sig, hash_bytes(&want));
                    match e.get_chunk_lease() {
                        Ok(l) => {
                            if l.remaining() != want.len() {
                                bad("length-wrong", format!("{} bytes were written, the lease has {}", want.len(), l.remaining()));
                            }
                            drop(e);
                            live.push(Item { h: Held::Lease(l), want });
                        }
                        Err(_) => {
                            drop(e);
                            exhausted += 1;
                            if live.is_empty() && !threads && want.len() + chunk <= (max - 1) * chunk {
                                bad("pool-exhausted-without-leases", format!("{} bytes do not fit", want.len()));
                            }
                            if !live.is_empty() && rng.chance(1, 2) {
                                live.swap_remove(rng.below(live.len()));
                            }
                        }
                    }
                }
                5 => {
                    // turn a lease into a reference, or clone one, or chain two
                    if live.is_empty() {
                        continue;
                    }
                    let i = rng.below(live.len());
                    let it = live.swap_remove(i);
                    let new = match it.h {
                        Held::Lease(mut l) => {
                            let skip = if rng.chance(1, 3) { rng.below(it.want.len() + 1).min(it.want.len().saturating_sub(1)) } else { 0 };
                            l.advance(skip);
                            let want = it.want[skip..].to_vec();
                            match (rng.below(3), live.iter().position(|x| matches!(x.h, Held::Ref(_)))) {
                                (0, Some(j)) => {
                                    let Held::Ref(o) = &live[j].h else { unreachable!() };
                                    let w2 = [want, live[j].want.clone()].concat();
                                    Item { h: Held::Ref(l.into_chunk_ref_with_tail(o.clone())), want: w2 }
                                }
                                (1, Some(j)) => {
                                    let Held::Ref(o) = &live[j].h else { unreachable!() };
                                    let w2 = [live[j].want.clone(), want].concat();
                                    Item { h: Held::Ref(l.into_chunk_ref_with_head(o.clone())), want: w2 }
                                }
                                _ => Item { h: Held::Ref(l.into_chunk_ref()), want },
                            }
                        }
                        Held::Ref(mut r) => {
                            let c = Item { h: Held::Ref(r.clone()), want: it.want.clone() };
                            live.push(c);
                            let skip = rng.below(it.want.len() + 1).min(it.want.len().saturating_sub(1));
                            r.advance(skip);
                            Item { h: Held::Ref(r), want: it.want[skip..].to_vec() }
                        }
                    };
                    if new.want.len() < 100_000 {
                        live.push(new);
                    }
                }
                6 | 7 => {
                    if !live.is_empty() {
                        let i = rng.below(live.len());
                        let it = live.swap_remove(i);
                        if threads && rng.chance(1, 2) {
                            let _ = tx.send(it);
                        }
                    }
                }
                8 => {
                    if rng.chance(1, 3) {
                        live.clear();
                        if !threads {
                            // everything is free: the whole pool must be usable again
                            let want: Vec<u8> = rng.bytes((max - 1) * chunk - chunk / 2);
                            match eb.get_buffer_encoder() {
                                Ok(mut e) => {
                                    e.put_slice(&want);
                                    match e.get_chunk_lease() {
                                        Ok(l) => {
                                            recovered += 1;
                                            if drain(l) != want {
                                                bad("content-wrong", "after all leases were released".into());
                                            }
                                        }
                                        Err(er) => bad("pool-lost-chunks", format!("with all leases released {} bytes do not fit: {:?}", want.len(), er)),
                                    }
                                }
                                Err(er) => bad("pool-lost-chunks", format!("with all leases released no encoder: {:?}", er)),
                            };
                        }
                    }
                }
                _ => {
                    // a message that is given up half-way
                    if let Ok(mut e) = eb.get_buffer_encoder() {
                        e.put_slice(&rng.bytes(rng.clone().range(1, chunk * 2)));
                    }
                }
            }
            // every held content is unchanged
            for it in &live {
                checks += 1;
                if it.len() != it.want.len() || it.content() != it.want {
                    bad("held-content-changed", format!("{} bytes held", it.want.len()));
                    return;
                }
            }
            let l = alloc.live.load(Ordering::SeqCst);
            if l > max as i64 {
                bad("pool-exceeds-maximum", format!("{} chunks are live", l));
                return;
            }
        }
        // dropping the buffer while data is still held
        drop(eb);
        for it in &live {
            checks += 1;
            if it.content() != it.want {
                bad("held-content-changed-after-buffer-was-dropped", format!("{} bytes held", it.want.len()));
                break;
            }
        }
    });
    if let Err(e) = r {
        bad("panicked", e);
    }
    let kept = live.len();
    live.clear();
    drop(tx);
    if let Some(w) = worker {
        match w.join() {
            Ok(n) => rep.count("contents_checked_on_other_threads", n),
            Err(_) => {
                take_panics();
                bad("panicked-on-reader-thread", String::new());
            }
        }
    }
    let l = alloc.live.load(Ordering::SeqCst);
    if l != 0 {
        bad("chunks-leaked", format!("{} chunks were never given back to the allocator", l));
    }
    for f in alloc.faults.lock().unwrap().iter() {
        bad("allocator-misuse", f.clone());
    }
    rep.count("content_checks", checks);
    rep.count("pool_exhaustions", exhausted);
    rep.count("full_recoveries", recovered);
    rep.count("leases_held_past_buffer_drop", kept as u64);
    rep.count("chunks_allocated", alloc.got.load(Ordering::SeqCst));
    rep.eval(sig, alloc.got.load(Ordering::SeqCst) > 1);
    if rep.wants_sample() {
        rep.sample(json!({"chunk": chunk, "max_chunks": max, "chunks_allocated": alloc.got.load(Ordering::SeqCst), "exhaustions": exhausted, "content_checks": checks}));
    }
}

/// The pool itself.
fn pool_case(rep: &Arc<Report>, case: u64, rng: &mut Rng) {
    let max = rng.range(2, 9);
    let init = rng.range(0, max);
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(128);
    cfg.max_chunk_count(max);
    cfg.initial_chunk_count(init);
    let alloc = Alloc::new(128);
    let dynalloc: Arc<dyn ChunkAllocator> = alloc.clone();
    let bad = |s: &str, d: String| rep.violation(s, case, format!("{} (max {}, initial {})", d, max, init), json!({}));
    let mut sig = mix(77, (max * 100 + init) as u64);
    let mut ops = 0;
    let r = catch(|| {
        let mut pool = BufferPool::with_config(&cfg, &Some(dynalloc));
        let mut out: Vec<BufferChunk> = Vec::new();
        // leases by chunk serial: (lease, bytes)
        let mut leases: Vec<(ChunkLease, Vec<u8>)> = Vec::new();
        let mut locked_chunks = 0usize; // upper bound on returned chunks still leased
        for _ in 0..rng.range(10, 200) {
            ops += 1;
            let op = rng.below(6);
            sig = mix(sig, op as u64);
            match op {
                0 | 1 => match pool.get_buffer() {
                    Some(mut c) => {
                        if !c.free() {
                            bad("locked-chunk-handed-out", String::new());
                        }
                        // write and lease
                        out.push(c);
                        if out.len() > max {
                            bad("pool-exceeds-maximum", format!("{} chunks are out", out.len()));
                        }
                    }
                    None => {
                        if leases.is_empty() && out.len() < max {
                            bad("pool-lost-chunks", format!("nothing is leased, {} of {} are out, and none is handed out", out.len(), max));
                        }
                    }
                },
                2 => {
                    if let Some(c) = out.last_mut() {
                        // through a decode buffer, the public way to write into a chunk
                        let n = rng.range(1, 100);
                        let d = rng.bytes(n);
                        let mut dummy = BufferChunk::new(128);
                        dummy.swap_buffer(c);
                        let mut db = DecodeBuffer::new(dummy, &cfg);
                        db.get_writeable().unwrap()[..n].copy_from_slice(&d);
                        let mut back = BufferChunk::new(128);
                        db.swap_buffer(&mut back);
                        // `back` is locked now; its content was not leased
                        c.swap_buffer(&mut back);
                        let _ = c.free();
                        let from = rng.below(n);
                        let l = c.get_lease(from, n);
                        leases.push((l, d[from..].to_vec()));
                        let c = out.pop().unwrap();
                        pool.return_buffer(c);
                        locked_chunks += 1;
                    }
                }
                3 => {
                    if !out.is_empty() {
                        let i = rng.below(out.len());
                        pool.return_buffer(out.swap_remove(i));
                    }
                }
                _ => {
                    if !leases.is_empty() {
                        let i = rng.below(leases.len());
                        leases.swap_remove(i);
                    }
                }
            }
            for (l, w) in &leases {
                if l.create_byte_clone()[..] != w[..] {
                    bad("held-content-changed", format!("{} bytes", w.len()));
                    return;
                }
            }
            let (size, idle) = pool.get_pool_sizes();
            if size > max || size != idle + out.len() {
                bad("pool-accounting-wrong", format!("size {} idle {} out {}", size, idle, out.len()));
                return;
            }
        }
        let _ = locked_chunks;
        drop(pool);
        drop(out);
        for (l, w) in &leases {
            if l.create_byte_clone()[..] != w[..] {
                bad("held-content-changed-after-pool-was-dropped", format!("{} bytes", w.len()));
                return;
            }
        }
    });
    if let Err(e) = r {
        bad("panicked", e);
    }
    if alloc.live.load(Ordering::SeqCst) != 0 {
        bad("chunks-leaked", format!("{}", alloc.live.load(Ordering::SeqCst)));
    }
    for f in alloc.faults.lock().unwrap().iter() {
        bad("allocator-misuse", f.clone());
    }
    rep.count("pool_operations", ops);
    rep.eval(sig, true);
}

/// Messages serialised with size hints (reservation), beyond what the pool can hold, and again after release.
fn reserve_case(rep: &Arc<Report>, case: u64, rng: &mut Rng) {
    use kompact::prelude::*;
    let chunk = *rng.pick(&[128usize, 200]);
    let max = rng.range(2, 6);
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(chunk);
    cfg.max_chunk_count(max);
    cfg.initial_chunk_count(rng.range(1, 2));
    let alloc = Alloc::new(chunk);
    let dynalloc: Arc<dyn ChunkAllocator> = alloc.clone();
    let bad = |s: &str, d: String| rep.violation(s, case, format!("{} (chunk {}, max {})", d, chunk, max), json!({}));
    let mut sig = mix(99, (max * 1000 + chunk) as u64);
    let r = catch(|| {
        let mut eb = EncodeBuffer::with_config(&cfg, &Some(dynalloc));
        let src: ActorPath = "tcp://127.0.0.1:1000/a".parse().unwrap();
        let mut held: Vec<(ChunkRef, Vec<u8>)> = Vec::new();
        let mut fails = 0u64;
        for _ in 0..rng.range(10, 60) {
            let n = match rng.below(4) {
                0 => rng.range(1, 20),
                1 => rng.range(1, (max + 1) * chunk),
                2 => chunk,
                _ => rng.range(1, chunk * 2),
            };
            sig = mix(sig, n as u64);
            let s: String = (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
            let res = match eb.get_buffer_encoder() {
                Ok(mut e) => ser_helpers::serialise_msg(&src, &src, &s as &dyn Serialisable, &mut e),
                Err(e) => Err(e),
            };
            match res {
                Ok(l) => {
                    let l = l.into_chunk_ref();
                    let bytes = drain(l.clone());
                    if !bytes.ends_with(s.as_bytes()) {
                        bad("content-wrong", format!("{} bytes", n));
                    }
                    held.push((l, bytes));
                }
                Err(_) => {
                    fails += 1;
                    // a message that surely fits when nothing is held must be accepted
                    if held.is_empty() && n + 200 < (max - 1) * chunk {
                        bad("pool-lost-chunks", format!("nothing is held but {} bytes are refused", n));
                        return;
                    }
                    held.clear();
                }
            }
            if rng.chance(1, 3) && !held.is_empty() {
                let i = rng.below(held.len());
                held.swap_remove(i);
            }
            for (l, w) in &held {
                if drain(l.clone()) != *w {
                    bad("held-content-changed", format!("{} bytes", w.len()));
                    return;
                }
            }
            if alloc.live.load(Ordering::SeqCst) > max as i64 {
                bad("pool-exceeds-maximum", String::new());
                return;
            }
        }
        rep.count("reserve_failures", fails);
    });
    if let Err(e) = r {
        bad("panicked", e);
    }
    rep.eval(sig, true);
}

pub fn s04(rep: &Arc<Report>) {
    rep.rule("a case is a history of writes, leases, references, releases and drops on one encode buffer or pool with a counting allocator; distinct by written content and operations");
    rep.assume("BufferChunk::get_lease is only called on ranges that do not overlap an unreleased lease (the library's own discipline)");
    rep.run_cases(8, 1.0, u64::MAX, |rep, case, seed| {
        let rng = &mut Rng::new(seed);
        match case % 5 {
            0 => pool_case(rep, case, rng),
            1 => reserve_case(rep, case, rng),
            _ => encode_case(rep, case, rng),
        }
    });
}
