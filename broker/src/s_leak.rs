//! R01 (what an ended client cost is given back), R02 (what one connection can make the broker hold).
use crate::alloc;
use crate::cli::*;
use crate::env::*;
use crate::s_gate::{good_connect, unsupported_connect, unsupported_request, Obs};
use crate::s_hist::finish;
use crate::server::*;
use refmqtt::report::Report;
use refmqtt::rng::{fnv, Rng};
use refmqtt::wire::*;
use std::net::SocketAddr;
use std::time::Duration;

/// sockets the broker's process holds for its connections on this listener (orphans do not count)
fn held(a: SocketAddr) -> usize {
    let ip = match a.ip() {
        std::net::IpAddr::V4(v) => u32::from_le_bytes(v.octets()),
        _ => return 0,
    };
    let want = format!("{:08X}:{:04X}", ip, a.port());
    let mut n = 0;
    for l in std::fs::read_to_string("/proc/net/tcp").unwrap_or_default().lines().skip(1) {
        let f: Vec<&str> = l.split_whitespace().collect();
        // local address, state, inode
        if f.len() > 9 && f[1] == want && f[3] != "0A" && f[9] != "0" {
            n += 1;
        }
    }
    n
}
/// (bytes, blocks) once the broker has dealt with everything that ended
fn settle(b: &Broker, clients: usize, what: &str) -> Res<(i64, i64)> {
    let d = limit();
    let mut last = String::new();
    let ok = wait(d, || {
        let c = b.clients().map(|c| c.len()).unwrap_or(usize::MAX);
        let s = held(b.mqtt) + if b.noise == b.mqtt { 0 } else { held(b.noise) };
        last = format!("{c} clients registered, {s} connections held; {clients} are alive");
        c == clients && s == clients
    });
    b.check_panics()?;
    if !ok {
        return bad("ended connections are not given back", format!("{what}: {last}"));
    }
    // the smallest of a quiet moment
    let (mut best, mut same) = ((alloc::live(b.id), alloc::blocks(b.id)), 0);
    let d = Deadline::new(3.0);
    while same < 4 && !d.over() {
        std::thread::sleep(Duration::from_millis(8));
        let now = (alloc::live(b.id), alloc::blocks(b.id));
        if now == best {
            same += 1;
        } else {
            same = 0;
            best = now;
        }
    }
    Ok(best)
}
const KINDS: &[&str] = &[
    "connect and end",
    "never finish connecting",
    "refused connects",
    "subscribe and end",
    "subscribe to new filters and end",
    "take over",
    "subscribe again",
    "publish to new topics",
    "unsupported requests",
    "refused subscriptions",
    "backlog read",
    "backlog abandoned",
    "malformed packets",
    "partial packets",
    "timeouts",
    "crowds",
    "take over with new filters",
    "everything",
];
struct World {
    b: Broker,
    o: Obs,
    /// a client that stays
    stay: Cli,
    enc: Option<bool>,
    /// takes turns with others under one identifier
    prev: Option<Cli>,
}
/// an identifier that was there before, or one that is new
fn name(r: &mut Rng, k: &str, i: usize) -> String {
    match r.below(8) {
        0..=3 => format!("{k}{}", i % 5),
        4..=6 => format!("new{k}{i}"),
        _ => format!("new{k}{i}{}", "n".repeat(r.below(2000))),
    }
}
fn ending(c: Cli, r: &mut Rng) {
    match r.below(5) {
        0 | 1 => c.abort(),
        2 => drop(c),
        3 => {
            let mut c = c;
            let f = c.seal(&encode(&Pkt::new(DISCONNECT)));
            c.send_raw(&f);
            c.abort();
        }
        _ => {
            c.half_close();
            std::thread::sleep(Duration::from_micros(r.below(300) as u64));
            c.abort();
        }
    }
}
impl World {
    fn enc(&self, r: &mut Rng) -> bool {
        self.enc.unwrap_or_else(|| r.chance(1, 3))
    }
    /// one more client (or request) that comes and goes
    fn cycle(&mut self, kind: usize, i: usize, r: &mut Rng) -> Res<()> {
        let enc = self.enc(r);
        match kind {
            0 => {
                let id = name(r, "r", i);
                let c = Cli::connect_with(&self.b, enc, &good_connect(r, &id))?.0;
                ending(c, r);
            }
            1 => {
                let mut c = Cli::open_raw(&self.b, enc, "raw")?;
                match r.below(5) {
                    0 => (),
                    1 => {
                        let n = r.range(1, 200);
                        let junk = r.bytes(n);
                        c.send_raw(&junk);
                    }
                    2 => {
                        let f = encode(&good_connect(r, "never"));
                        let n = r.range(1, f.len() - 1);
                        c.send_raw(&f[..n]);
                    }
                    3 if enc => {
                        let n = r.range(1, 100);
                        let f = noise_frame(&r.bytes(n));
                        c.send_raw(&f);
                    }
                    _ if enc => {
                        c.handshake(&keys().1)?;
                        if r.chance(1, 2) {
                            let f = c.seal(&encode(&good_connect(r, "never")));
                            let n = r.range(1, f.len() - 1);
                            c.send_raw(&f[..n]);
                        }
                    }
                    _ => {
                        c.send_raw(&[0x10, 0xff, 0xff, 0x03, 0, 4, b'M']);
                    }
                }
                if r.chance(1, 3) {
                    c.half_close();
                }
                c.abort();
            }
            2 => {
                let mut p = good_connect(r, "refused");
                unsupported_connect(r, &mut p);
                let mut c = Cli::open(&self.b, enc, "refused")?;
                c.send(&p);
                c.expect_end("after an unsupported CONNECT")?;
                c.abort();
            }
            3 | 4 | 16 => {
                let id = if kind == 16 { "same".to_string() } else { name(r, "s", i) };
                let mut p = Pkt::connect(&id, 60);
                p.flags |= 2;
                let mut c = Cli::connect_with(&self.b, enc, &p)?.0;
                c.name = id;
                let n = r.range(1, 4);
                let fs: Vec<String> = (0..n)
                    .map(|k| {
                        let u = if kind == 3 { i % 10 } else { i * 10 };
                        let s = u + k;
                        match r.below(5) {
                            0 => format!("leak/{s}"),
                            1 => format!("leak/{s}/+/x"),
                            2 => format!("leak/{s}/#"),
                            3 => format!("l{s}"),
                            _ => format!("/{s}//a/b"),
                        }
                    })
                    .collect();
                let fs: Vec<(&str, u8)> = fs.iter().map(|f| (f.as_str(), OPT)).collect();
                c.sub_ok(&fs)?;
                if kind == 16 {
                    // stays until the next one takes its place
                    if let Some(mut old) = self.prev.replace(c) {
                        old.expect_end("when its identifier is taken over")?;
                        old.abort();
                    }
                    return Ok(());
                }
                ending(c, r);
            }
            5 => {
                let mut p = good_connect(r, "stay");
                p.props.retain(|x| x.0 != 0x27);
                let mut c = Cli::connect_with(&self.b, enc, &p)?.0;
                if r.chance(1, 2) {
                    c.sub_ok(&[("lt/t", OPT), ("lt/+", OPT)])?;
                }
                std::mem::swap(&mut self.stay, &mut c);
                c.expect_end("when its identifier is taken over")?;
                c.abort();
            }
            6 => {
                let s = format!("leak/again/{}", i % 20);
                let opt = OPT | if r.chance(1, 2) { NL } else { 0 };
                let (c, _) = self.stay.subscribe(6, &[(&s, opt), ("leak/again/#", opt)])?;
                if c != [0, 0] {
                    return bad("a supported subscription is refused", format!("{c:02x?}"));
                }
            }
            7 => {
                let t = match r.below(3) {
                    0 => format!("leak/new/{i}"),
                    1 => format!("new{i}/x/y"),
                    _ => format!("$new/{i}"),
                };
                let n = r.below(300);
                let m = r.bytes(n);
                self.o.publish(&t, &m);
                if i % 50 == 49 {
                    self.o.until_mark()?;
                }
            }
            8 => {
                let id = name(r, "u", i);
                let mut c = Cli::connect_with(&self.b, enc, &Pkt::connect(&id, 60))?.0;
                let (p, _) = unsupported_request(r, &id);
                c.send(&p);
                c.expect_end("after an unsupported request")?;
                c.abort();
            }
            9 => {
                let deep = "a/".repeat(3000) + &i.to_string();
                let qos1 = format!("leak/q/{i}");
                let share = format!("$share/g/leak/{i}");
                let (c, _) = self.stay.subscribe(5, &[(&qos1, 0x21), (&share, OPT), (&deep, OPT), (&qos1, 0x22), (&qos1, 0x00)])?;
                if c.iter().any(|x| *x < 0x80) {
                    return bad("an unsupported subscription is granted", format!("{c:02x?}"));
                }
            }
            10 | 11 => {
                let mut c = Cli::connect(&self.b, enc, &name(r, "slow", i))?;
                c.window(1 << 17);
                c.sub_ok(&[("leak/big", OPT)])?;
                let m = r.bytes(60_000);
                for k in 0..120 {
                    self.o.publish("leak/big", &m);
                    if k % 20 == 19 {
                        self.o.until_mark()?;
                    }
                }
                if kind == 10 {
                    for _ in 0..120 {
                        match c.recv(limit()) {
                            Ev::Pkt(p, _) if p.ty == PUBLISH => (),
                            e => return bad("expected publication did not arrive", ev(&e)),
                        }
                    }
                }
                c.abort();
            }
            12 => {
                let mut c = Cli::connect(&self.b, enc, &name(r, "bad", i))?;
                if enc && r.chance(1, 2) {
                    let f = noise_frame(&r.bytes(50));
                    c.send_raw(&f);
                } else {
                    c.send_bytes(r.pick(&[&[0x00u8, 0][..], &[0x36, 2, 0, 0], &[0x82, 1, 0], &[0xf7, 0]]));
                }
                c.expect_end("after a malformed packet")?;
                c.abort();
            }
            13 => {
                let mut c = Cli::connect(&self.b, enc, &name(r, "part", i))?;
                let n = r.range(20, 60_000);
                let f = c.seal(&encode(&Pkt::publish("leak/part", &r.bytes(n))));
                let n = r.range(1, f.len() - 1);
                c.send_for(&f[..n], 3.0);
                c.abort();
            }
            15 => {
                let mut v = vec![];
                for k in 0..25 {
                    let mut c = Cli::connect(&self.b, enc, &format!("crowd{k}"))?;
                    if r.chance(1, 2) {
                        c.sub_ok(&[("leak/crowd", OPT), (&format!("leak/crowd/{k}"), OPT)])?;
                    }
                    v.push(c);
                }
                self.o.publish("leak/crowd", b"x");
                for c in v {
                    ending(c, r);
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    /// connections that are left alone until the broker has had enough of them
    fn timeouts(&mut self, n: usize, r: &mut Rng) -> Res<()> {
        let mut v = vec![];
        for i in 0..n {
            let enc = self.enc(r);
            let mut c = Cli::open_raw(&self.b, enc, &format!("idle {i}"))?;
            match r.below(3) {
                0 => (),
                1 => {
                    c.send_raw(&[0x10]);
                }
                _ => {
                    if enc {
                        c.handshake(&keys().1)?;
                    }
                    let f = c.seal(&encode(&good_connect(r, "idle")));
                    let n = r.range(1, f.len() - 1);
                    c.send_raw(&f[..n]);
                }
            }
            v.push(c);
        }
        for c in v.iter_mut() {
            c.expect_end("when it does not finish connecting")?;
        }
        for c in v {
            c.abort();
        }
        Ok(())
    }
}
const SEGMENTS: usize = 6;
fn probe(kind: usize, e: usize, r: &mut Rng, rep: &mut Report) -> Res<()> {
    let idle = kind == 14;
    let mut cfg = Cfg::random(r);
    if idle {
        cfg.keep_alive = 1;
    }
    let b = Broker::start(cfg)?;
    // with little time to connect the harness may be too slow once
    let (mut o, mut stay) = (Obs::new(&b, r), Cli::connect(&b, r.chance(1, 3), "stay"));
    for _ in 0..20 {
        if !idle || o.is_ok() && stay.is_ok() {
            break;
        }
        (o, stay) = (Obs::new(&b, r), Cli::connect(&b, r.chance(1, 3), "stay"));
    }
    let (o, mut stay) = (o?, stay?);
    stay.name = "stay".into();
    let enc = match e / KINDS.len() % 3 {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    let mut w = World { b, o, stay, enc, prev: None };
    let slow = matches!(kind, 10 | 11 | 15);
    let n = if idle { 40 } else if slow { 12 } else { 150 };
    let mut at = 0usize;
    let mut round = |w: &mut World, r: &mut Rng, times: usize| -> Res<(i64, i64)> {
        if idle {
            w.timeouts(times, r)?;
        } else {
            for _ in 0..times {
                let k = if kind == 17 { r.below(17) } else { kind };
                if kind == 17 && matches!(k, 10 | 11 | 14 | 15) && !r.chance(1, 10) || k == 14 {
                    continue;
                }
                w.cycle(k, at, r)?;
                at += 1;
            }
        }
        if let Some(c) = w.prev.take() {
            ending(c, r);
        }
        w.o.until_mark()?;
        settle(&w.b, 3, KINDS[kind])
    };
    let mut seen = vec![];
    // the first rounds may fill caches and grow tables to the size they need
    round(&mut w, r, if idle { n } else { n * 2 })?;
    let mut patience = 3;
    loop {
        seen.clear();
        seen.push(round(&mut w, r, n)?);
        for _ in 0..SEGMENTS {
            let x = round(&mut w, r, n)?;
            seen.push(x);
        }
        rep.count("settled_states", SEGMENTS as u64 + 1);
        rep.count("cycles", (n * (SEGMENTS + 1)) as u64);
        let grew = |f: &dyn Fn(&(i64, i64)) -> i64, per: f64, least: i64| {
            let d = f(&seen[SEGMENTS]) - f(&seen[0]);
            let up = seen.windows(2).filter(|w| f(&w[1]) > f(&w[0])).count();
            d >= least && d as f64 >= per * (n * SEGMENTS) as f64 && up >= SEGMENTS - 1
        };
        let leak = grew(&|x| x.0, 8.0, 6_000) || grew(&|x| x.1, 0.1, 12);
        if std::env::var("VERIF_SHOW").is_ok() {
            eprintln!("{e} {:?} enc {:?} n {n}: {:?}", KINDS[kind], w.enc, seen.iter().map(|x| (x.0 - seen[0].0, x.1 - seen[0].1)).collect::<Vec<_>>());
        }
        if !leak {
            break;
        }
        patience -= 1;
        if patience == 0 {
            return bad(
                "memory is kept for clients that are gone",
                format!("{}: live heap (bytes, blocks) of the broker after every {n} of them, with the same three clients connected: {seen:?}", KINDS[kind]),
            );
        }
    }
    w.b.check_panics()?;
    rep.evaluations += 1;
    rep.distinct.insert(fnv(format!("{kind} {:?} {}", w.enc, w.b.cfg.workers).as_bytes()));
    rep.count(&format!("kind_{}", KINDS[kind].replace(' ', "_")), 1);
    if rep.samples.len() < 6 {
        rep.sample(format!("{}: {} cycles, live heap changed by {} bytes and {} blocks", KINDS[kind], n * SEGMENTS, seen[SEGMENTS].0 - seen[0].0, seen[SEGMENTS].1 - seen[0].1));
    }
    Ok(())
}
pub fn r01() -> i32 {
    perturb(15, 60);
    perturb_long(0);
    let rep = episodes(
        "R01",
        "a history is non-trivial by (what its clients do, listener, worker threads); every one is some hundred clients or requests that come and go, with the broker's live heap and sockets read between rounds",
        Plan::new(KINDS.len() * 6, KINDS.len() * 60).secs(60.0, 900.0),
        |e, r, rep| {
            let k = e % KINDS.len();
            // waiting takes long
            let k = if k == 14 && e / KINDS.len() % 10 != 0 { 17 } else { k };
            probe(k, e, r, rep)
        },
    );
    finish(rep)
}

/// bytes the broker may hold for a connection at rest, and may need on the way
fn at_rest(max: u32) -> i64 {
    3 * max as i64 + (128 << 10)
}
fn on_the_way(max: u32) -> i64 {
    100 * max as i64 + (1 << 20)
}
/// A header that announces more than will ever come.
fn announce(r: &mut Rng, enc: bool, connected: bool) -> Vec<u8> {
    let n = *r.pick(&[100u32, 5_000, 65_000, 65_535, 65_536, 70_000, 300_000, 1 << 20, 8 << 20, (8 << 20) + 1, 100 << 20, 268_435_455]);
    if enc {
        let n = if r.chance(1, 10) { u32::MAX } else { n };
        return n.to_be_bytes().to_vec();
    }
    let mut v = vec![];
    match r.below(4) {
        _ if !connected => {
            v.push(0x10);
            put_varint(&mut v, n);
            v.extend_from_slice(&[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 60]);
            if r.chance(1, 2) {
                put_varint(&mut v, *r.pick(&[0u32, 200_000_000, 70_000]));
                v.extend_from_slice(&[0xff, 0xff]);
            }
        }
        0 => {
            v.push(0x30);
            put_varint(&mut v, n);
            v.extend_from_slice(&[0xff, 0xff, b'a', b'b']);
        }
        1 => {
            v.push(0x30);
            put_varint(&mut v, n);
            v.extend_from_slice(&[0, 1, b't']);
            put_varint(&mut v, *r.pick(&[0u32, 5, 200_000_000]));
        }
        2 => {
            v.push(0x82);
            put_varint(&mut v, n);
            v.extend_from_slice(&[0, 1]);
            put_varint(&mut v, *r.pick(&[0u32, 3, 268_435_455]));
        }
        _ => {
            v.push(*r.pick(&[0xa2u8, 0xe0, 0xf0, 0x90, 0xb0]));
            put_varint(&mut v, n);
            v.extend_from_slice(&[0, 1]);
        }
    }
    v
}
/// A complete packet out of as many small parts as fit.
fn dense(r: &mut Rng, max: usize) -> Vec<u8> {
    let room = max - 40;
    match r.below(4) {
        0 => {
            let mut p = Pkt::publish("dense/t", b"");
            p.props = (0..room / 3).map(|_| (0x26, V::S(String::new()))).collect();
            encode(&p)
        }
        1 => {
            // every filter is refused
            let f: Vec<(&str, u8)> = (0..room / 4).map(|_| ("a", 0x21)).collect();
            encode(&Pkt::subscribe(3, &f))
        }
        2 => encode(&Pkt { id: Some(4), filters: (0..room / 3).map(|_| "b".to_string()).collect(), ..Pkt::new(UNSUBSCRIBE) }),
        _ => {
            let mut p = Pkt::publish("dense/t", b"");
            p.topic = "/".repeat(room.min(65_535));
            encode(&p)
        }
    }
}
pub fn r02() -> i32 {
    perturb(15, 60);
    perturb_long(0);
    let rep = episodes(
        "R02",
        "a connection is non-trivial by (listener, how far it got, what it sent, packet size limit); distinct ones are counted, as are the readings of the broker's live heap",
        Plan::new(240, 10000).secs(60.0, 600.0),
        |_, r, rep| {
            let mut cfg = Cfg::random(r);
            cfg.max = *r.pick(&[65536u32, 65536, 65536, 20_000, 200_000]);
            let max = cfg.max;
            let b = Broker::start(cfg)?;
            let mut o = Obs::new(&b, r)?;
            o.until_mark()?;
            let base = settle(&b, 2, "before")?.0;
            // one after the other: what is needed on the way
            for k in 0..12 {
                let enc = crypt(r.chance(1, 2));
                let size = if enc { (max as usize).min(65_000) } else { max as usize };
                alloc::reset_peak(b.id);
                let before = alloc::live(b.id);
                let mut what = "dense packet";
                let mut c;
                if r.chance(1, 2) {
                    c = Cli::connect(&b, enc, &format!("dense{k}"))?;
                    let w = dense(r, size);
                    c.send_bytes(&w);
                    c.send(&Pkt::publish("dense/end", b""));
                } else {
                    what = "announcement";
                    let connected = r.chance(1, 2);
                    c = if connected { Cli::connect(&b, enc, &format!("big{k}"))? } else { Cli::open_raw(&b, enc, "big")? };
                    let mut w = announce(r, enc, connected);
                    let n = r.below(600_000);
                    w.extend(std::iter::repeat(0u8).take(n));
                    c.send_for(&w, 3.0);
                }
                c.half_close();
                c.expect_end("after it closed its side")?;
                c.abort();
                o.until_mark()?;
                let peak = alloc::peak(b.id) - before;
                rep.count("peaks_read", 1);
                if peak > on_the_way(max) {
                    return bad("one client makes the broker allocate without bound", format!("{what} on enc {enc}: {peak} bytes more at once, packets are limited to {max}"));
                }
                rep.distinct.insert(fnv(format!("{what} {enc} {max} {}", peak >> 16).as_bytes()));
                rep.evaluations += 1;
            }
            // many at once: what is held
            let mut v = vec![];
            let mut kinds = vec![];
            for i in 0..16 {
                let enc = crypt(r.chance(1, 2));
                let stage = r.below(3);
                let mut c = match stage {
                    0 => Cli::open_raw(&b, enc, "hold")?,
                    1 => Cli::open(&b, enc, "hold")?,
                    _ => Cli::connect(&b, enc, &format!("hold{i}"))?,
                };
                let mut w = announce(r, enc, stage == 2);
                let n = *r.pick(&[0usize, 0, 10, 1000, 60_000]);
                w.extend(std::iter::repeat(b'x').take(n));
                c.send_for(&w, 3.0);
                kinds.push(format!("enc {enc} stage {stage} {:02x?}.. {n}", &w[..w.len().min(8)]));
                rep.distinct.insert(fnv(format!("{enc} {stage} {max} {n} {:?}", &w[..4]).as_bytes()));
                rep.evaluations += 1;
                v.push(c);
            }
            o.until_mark()?;
            let mut held = i64::MAX;
            // at rest: the least of some moments
            for _ in 0..6 {
                std::thread::sleep(Duration::from_millis(10));
                held = held.min(alloc::live(b.id) - base);
            }
            rep.count("holds_read", 1);
            if held > at_rest(max) * v.len() as i64 {
                // it may not have caught up
                let d = Deadline::new(6.0);
                while !d.over() && held > at_rest(max) * v.len() as i64 {
                    std::thread::sleep(Duration::from_millis(20));
                    held = held.min(alloc::live(b.id) - base);
                }
            }
            if held > at_rest(max) * v.len() as i64 {
                return bad("connections make the broker hold more than a few packets each", format!("{held} bytes for {} connections, packets are limited to {max}\n{}", v.len(), kinds.join("\n")));
            }
            if rep.samples.len() < 6 {
                rep.sample(format!("{} connections hold {held} bytes, packets are limited to {max}", v.len()));
            }
            if std::env::var("VERIF_SHOW").is_ok() {
                eprintln!("held {} per connection, max {max}", held / v.len() as i64);
            }
            for c in v {
                c.abort();
            }
            o.until_mark()?;
            let end = settle(&b, 2, "after")?.0;
            if end - base > 200_000 {
                return bad("memory is kept for clients that are gone", format!("{} bytes", end - base));
            }
            Ok(())
        },
    );
    finish(rep)
}
