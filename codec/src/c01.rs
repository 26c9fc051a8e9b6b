//! C01: decoding is total. Monitors: unwinding, consumed bytes, live allocation, CPU time, and
//! (through the run script) death of the process.
use crate::bridge::*;
use crate::bufs::*;
use crate::*;
use apiformes_packet::prelude::*;
use bytes::{Buf, Bytes, BytesMut};
use refmqtt::wire::*;
use refmqtt::{gen, mutate, rng};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

/// upper bound on bytes that may be consumed from `b`
fn limit(b: &[u8]) -> usize {
    match head(b) {
        Head::Ok { at, len, .. } => at + len,
        Head::BadLength => 6,
        Head::NeedMore => b.len(),
    }
}
pub const KINDS: &[&str] = &["slice", "Bytes", "BytesMut", "VecDeque", "Chain", "one-byte segments", "Take"];
fn one<B: Buf>(b: B, len: usize, lim: usize) -> Result<(&'static str, usize), String> {
    let mut c = Count::new(b);
    alloc::begin();
    let res = catch(|| Packet::from_bytes(&mut c));
    let res = res.map_err(|m| format!("panic: {m}"))?;
    let peak = alloc::peak();
    let used = c.consumed();
    if used > lim {
        return Err(format!("consumed {used} bytes, the frame ends at {lim}"));
    }
    let bound = 8192 + 256 * len as i64;
    if peak > bound {
        return Err(format!("allocated {peak} bytes while decoding {len} bytes of input (bound {bound})"));
    }
    Ok(match res {
        Ok(p) => {
            let kind = match p {
                Packet::Connect(_) => "ok:connect",
                Packet::Publish(_) => "ok:publish",
                Packet::Subscribe(_) => "ok:subscribe",
                _ => "ok:other",
            };
            (kind, used)
        }
        Err(DataParseError::InsufficientBuffer { .. }) => ("need more", used),
        Err(_) => ("rejected", used),
    })
}
pub fn decode_as(b: &[u8], kind: usize) -> Result<(&'static str, usize), String> {
    let lim = limit(b);
    match kind {
        0 => one(b, b.len(), lim),
        1 => one(Bytes::copy_from_slice(b), b.len(), lim),
        2 => one(BytesMut::from(b), b.len(), lim),
        3 => {
            // a ring buffer whose contents wrap around
            let mut v: VecDeque<u8> = VecDeque::with_capacity(b.len().max(1));
            let k = b.len() / 2;
            v.extend(std::iter::repeat(0).take(v.capacity() - k.min(v.capacity())));
            v.clear();
            v.extend(b.iter());
            one(v, b.len(), lim)
        }
        4 => {
            let k = b.len() / 3;
            one(Buf::chain(&b[..k], &b[k..]), b.len(), lim)
        }
        5 => one(Seg::new(b, (1..b.len()).collect()), b.len(), lim),
        _ => one(Buf::take(Bytes::copy_from_slice(b), b.len()), b.len(), lim),
    }
}

struct Slot {
    case: Mutex<Vec<u8>>,
    serial: AtomicU64,
    clock: AtomicU64,
    file: Mutex<Option<std::fs::File>>,
}
fn cpu_ns(clock: libc::clockid_t) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

pub fn run() -> i32 {
    let th = 8;
    let slots: Vec<Slot> = (0..th)
        .map(|i| Slot {
            case: Mutex::new(vec![]),
            serial: AtomicU64::new(0),
            clock: AtomicU64::new(0),
            file: Mutex::new(
                std::env::var("VERIF_TRACE_DIR")
                    .ok()
                    .and_then(|d| std::fs::File::create(format!("{d}/slot{i}.hex")).ok()),
            ),
        })
        .collect();
    let done = AtomicBool::new(false);
    let rule = "inputs: every 1-2 byte string and bodies of every first byte, valid frames of all types and their structural mutants, truncations, hostile announced lengths, repeated elements up to MBs, raw random bytes; each presented as one of 7 buffer types. Non-trivial: distinct (outcome, first byte, buffer type, consumed length class, length class) combinations.";
    let mut rep = std::thread::scope(|s| {
        let watch = s.spawn(|| {
            // a case that burns more than 10 s of its thread's CPU time does not terminate
            let mut last: Vec<(u64, u64)> = vec![(0, 0); th];
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for (i, sl) in slots.iter().enumerate() {
                    let n = sl.serial.load(Relaxed);
                    let ck = sl.clock.load(Relaxed);
                    if ck == 0 {
                        continue;
                    }
                    let c = cpu_ns(ck as i32 as libc::clockid_t);
                    if n != last[i].0 {
                        last[i] = (n, c);
                    } else if n % 2 == 1 && c.saturating_sub(last[i].1) > 10_000_000_000 {
                        let case = sl.case.lock().unwrap().clone();
                        let mut r = Report::new("C01", rule);
                        r.evaluations = n;
                        r.violate("decoding does not terminate", format!("more than 10 s of CPU time on one input of {} bytes: {}", case.len(), hex(&case)));
                        std::process::exit(r.finish());
                    }
                }
            }
        });
        let rep = par("C01", rule, |e, r| {
            let sl = &slots[e.thread];
            let mut ck: libc::clockid_t = 0;
            unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut ck) };
            sl.clock.store(ck as u32 as u64, Relaxed);
            work(e, r, sl);
            sl.clock.store(0, Relaxed);
        });
        done.store(true, Relaxed);
        let _ = watch.join();
        rep
    });
    rep.assumptions.push("memory bound: peak live heap while decoding <= 8 KiB + 256 x input length; termination bound: 10 s of thread CPU time per input".into());
    rep.finish()
}
fn feed(b: &[u8], kind: usize, what: &str, r: &mut Report, sl: &Slot) {
    {
        let mut c = sl.case.lock().unwrap();
        c.clear();
        c.extend_from_slice(b);
    }
    if let Some(f) = sl.file.lock().unwrap().as_mut() {
        use std::io::{Seek, Write};
        let _ = f.seek(std::io::SeekFrom::Start(0));
        let _ = f.set_len(0);
        let _ = f.write_all(format!("{} {}", kind, hex(b)).as_bytes());
    }
    sl.serial.fetch_add(1, Relaxed);
    let res = decode_as(b, kind);
    sl.serial.fetch_add(1, Relaxed);
    r.evaluations += 1;
    match res {
        Ok((o, used)) => {
            r.count(o, 1);
            let l = (b.len() as f64).sqrt() as usize;
            let key = format!("{o}{}{kind}{}{l}", b.first().copied().unwrap_or(0), used.min(20));
            if r.distinct.insert(rng::fnv(key.as_bytes())) && r.samples.len() < 4 {
                r.sample(format!("{what} as {}: {} -> {o}, consumed {used}", KINDS[kind], hexs(b)));
            }
        }
        Err(m) => r.violate(format!("decoding is not total ({what}, buffer type {})", KINDS[kind]), format!("{m}\ninput ({} bytes): {}", b.len(), if b.len() <= 4000 { hex(b) } else { hexs(b) })),
    }
}
fn work(e: &mut Env, r: &mut Report, sl: &Slot) {
    // exhaustive tiny inputs
    for k in 0..KINDS.len() {
        feed(&[], k, "empty", r, sl);
    }
    for a in 0..=255u8 {
        if a as usize % e.threads != e.thread {
            continue;
        }
        for k in 0..KINDS.len() {
            feed(&[a], k, "1 byte", r, sl);
        }
        for b in 0..=255u8 {
            feed(&[a, b], (b % 7) as usize, "2 bytes", r, sl);
            if b < 8 {
                for c in 0..=255u8 {
                    feed(&[a, b, c], (c % 7) as usize, "3 bytes", r, sl);
                }
            }
        }
    }
    // hostile announced lengths with little data
    for t in 0..16u8 {
        let first = (t << 4) | fixed_flags(t);
        for l in [127u32, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455] {
            let mut o = vec![first];
            put_varint(&mut o, l);
            for n in [0usize, 1, 2, 10, 100] {
                let mut q = o.clone();
                q.extend(e.rng.bytes(n));
                for k in 0..KINDS.len() {
                    feed(&q, k, "huge remaining length", r, sl);
                }
            }
        }
    }
    // inner lengths announcing more than there is, for every 16-bit / varint position of small frames
    let c = gen::Cfg { user_pair: false, big: 0 };
    for _ in 0..e.share(4000) {
        let ty = e.rng.range(1, 15) as u8;
        let p = gen::packet(&mut e.rng, ty, c);
        let b = encode(&p);
        if b.len() > 200 {
            continue;
        }
        for i in 2..b.len() {
            let mut q = b.clone();
            match e.rng.below(3) {
                0 => q[i] = 0xff,
                1 => {
                    q[i] = 0xff;
                    if i + 1 < q.len() {
                        q[i + 1] = 0xff;
                    }
                }
                _ => q[i] |= 0x80,
            }
            let k = e.rng.below(KINDS.len());
            feed(&q, k, "inner length inflated", r, sl);
        }
    }
    // big repeated elements
    if e.thread < 4 {
        let n = if e.thorough { 2_000_000 } else { 200_000 };
        let mk = |ty: u8, unit: &[u8], n: usize, pre: &[u8], props: bool| {
            let mut body = pre.to_vec();
            let mut rep = Vec::with_capacity(unit.len() * n);
            for _ in 0..n {
                rep.extend_from_slice(unit);
            }
            if props {
                put_varint(&mut body, rep.len() as u32);
                body.extend(rep);
                if ty == SUBSCRIBE {
                    body.extend([0, 1, b'a', 0]);
                }
            } else {
                body.push(0);
                body.extend(rep);
            }
            frame((ty << 4) | fixed_flags(ty), &body)
        };
        let f = match e.thread {
            0 => mk(SUBSCRIBE, &[0, 1, b'a', 0], n, &[0, 1], false),
            1 => mk(SUBACK, &[0], n, &[0, 1], false),
            2 => mk(SUBSCRIBE, &[0x26, 0, 1, b'u'], n, &[0, 1], true),
            _ => mk(UNSUBSCRIBE, &[0, 2, b'+', b'/'], n, &[0, 1], false),
        };
        for k in [0, 1, 3] {
            feed(&f, k, "many repeated elements", r, sl);
        }
        // a string buffer of 65535 bytes in one-byte segments
        let p = Pkt { client_id: "x".repeat(65_535), ..Pkt::new(CONNECT) };
        feed(&encode(&p), 5, "long string in one-byte segments", r, sl);
    }
    let n = e.share(if e.thorough { 60_000_000 } else { 8_000_000 });
    for i in 0..n {
        if i % 64 == 0 && e.over() {
            r.count("stopped by time budget", 1);
            break;
        }
        let ty = e.rng.range(1, 15) as u8;
        let cfg = gen::Cfg { user_pair: e.rng.chance(1, 6), big: if e.rng.chance(1, 300) { 20_000 } else { 0 } };
        let p = gen::packet(&mut e.rng, ty, cfg);
        let (mut m, mut what) = match e.rng.below(8) {
            0 => (encode(&p), "valid"),
            1 => {
                let b = encode(&p);
                let k = e.rng.below(b.len());
                (b[..k].to_vec(), "truncated")
            }
            _ => mutate::mutant(&mut e.rng, &p),
        };
        if e.rng.chance(1, 4) {
            // more bytes follow
            let k = e.rng.range(1, 12);
            m.extend(e.rng.bytes(k));
        }
        if e.rng.chance(1, 10) && !m.is_empty() {
            let i = e.rng.below(m.len());
            m[i] = e.rng.u8();
            what = "mutant, byte changed";
        }
        let k = e.rng.below(KINDS.len());
        feed(&m, k, what, r, sl);
    }
}
/// replay: file content "kind hex"
pub fn decode_file(f: &str) -> i32 {
    let t = std::fs::read_to_string(f).unwrap();
    let mut it = t.split_whitespace();
    let k: usize = it.next().unwrap().parse().unwrap();
    let b = unhex(it.next().unwrap_or(""));
    match decode_as(&b, k) {
        Ok(x) => {
            println!("{x:?}");
            0
        }
        Err(e) => {
            println!("{e}");
            1
        }
    }
}
