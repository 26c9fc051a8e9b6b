//! S04 (hostile clients) and S07 (packet size limits).
use crate::cli::*;
use crate::env::*;
use crate::s_gate::{gcfg, good_connect, unsupported_connect, unsupported_request, Obs};
use crate::s_hist::finish;
use crate::server::*;
use refmqtt::gen;
use refmqtt::mutate;
use refmqtt::rng::{fnv, Rng};
use refmqtt::wire::*;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

fn dialect(r: &mut Rng) -> gen::Cfg {
    gen::Cfg { user_pair: r.chance(1, 3), big: 0 }
}
/// some frame: well-formed, slightly wrong or nonsense
fn frame_of_any_kind(r: &mut Rng, ty: u8) -> Vec<u8> {
    let c = dialect(r);
    match r.below(8) {
        0 => {
            let n = r.range(1, 60);
            r.bytes(n)
        }
        1..=4 => {
            let p = gen::packet(r, ty, c);
            mutate::mutant(r, &p).0
        }
        5 => {
            // cut short, with the announced length untouched
            let mut f = encode(&gen::packet(r, ty, c));
            let n = r.range(1, f.len());
            f.truncate(n);
            f
        }
        _ => encode(&gen::packet(r, ty, c)),
    }
}
/// a well-formed request with unusual contents
fn odd_request(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        0 => {
            // very deep filter or topic
            let n = *r.pick(&[100usize, 256, 257, 1000, 5000, 20_000, 30_000]);
            let l = *r.pick(&["", "a", "+", "b"]);
            let mut f = vec![l; n].join("/");
            if r.chance(1, 3) {
                f.push_str("/#");
            }
            if r.chance(1, 2) && !f.contains('+') && !f.contains('#') {
                encode(&Pkt::publish(&f, b"deep"))
            } else {
                encode(&Pkt::subscribe(3, &[(&f, OPT)]))
            }
        }
        1 => {
            let fs: Vec<(String, u8)> = (0..r.range(1, 400)).map(|i| (format!("m/{i}/{}", r.below(9)), *r.pick(&[OPT, OPT, OPT | NL, OPT | 8, 0, 1, 2, 0x10]))).collect();
            let s: Vec<(&str, u8)> = fs.iter().map(|(f, o)| (f.as_str(), *o)).collect();
            encode(&Pkt::subscribe(r.u16().max(1), &s))
        }
        2 => {
            let f = r.pick(&["$share/g/a", "$share/g/#", "$share//x", "$share/g", "#", "+/+/+", "/", "//", "$SYS/#", "$/+"]);
            encode(&Pkt::subscribe(r.u16().max(1), &[(f, OPT), (f, OPT | 8)]))
        }
        3 => {
            let mut p = Pkt::publish("odd/p", &r.bytes(50));
            p.props = gen::props(r, PUBLISH, gcfg());
            encode(&p)
        }
        4 => {
            let id = format!("x{}", r.below(4));
            encode(&unsupported_request(r, &id).0)
        }
        5 => {
            let t = gen::topic(r, gcfg());
            let n = r.below(3000);
            encode(&Pkt::publish(&t, &r.bytes(n)))
        }
        6 => {
            let f = gen::filter(r, gcfg());
            encode(&Pkt::subscribe(1, &[(&f, OPT)]))
        }
        7 => {
            let mut p = Pkt::new(DISCONNECT);
            p.reason = *r.pick(&[0u8, 4, 0x81, 0x98]);
            encode(&p)
        }
        _ => {
            let mut p = Pkt::subscribe(r.u16().max(1), &[("up/#", OPT)]);
            p.props.push((0x26, V::S(gen::gstr(r, 20))));
            encode(&p)
        }
    }
}
/// one hostile connection; what it was like
pub fn attack(b: &Broker, r: &mut Rng, k: usize) -> Res<String> {
    let enc = crypt(r.chance(2, 5));
    let kind = r.below(10);
    let id = if r.chance(1, 3) { format!("x{}", r.below(4)) } else if r.chance(1, 6) { format!("x-{k}-{}", gen::field_str(r, gcfg())) } else { format!("x-{k}") };
    let mut c;
    let what;
    match kind {
        0 => {
            what = "random bytes";
            c = Cli::open_raw(b, enc, "attacker")?;
            for _ in 0..r.range(1, 5) {
                let n = *r.pick(&[1usize, 2, 5, 50, 500, 5000]);
                c.send_for(&r.bytes(n), 0.3);
            }
        }
        1 => {
            what = "handshake garbage";
            c = Cli::open_raw(b, true, "attacker")?;
            for _ in 0..r.range(1, 4) {
                let n = *r.pick(&[0usize, 1, 31, 32, 48, 64, 80, 300, 65535, 65536, 70_000]);
                let mut f = noise_frame(&r.bytes(n));
                if r.chance(1, 6) {
                    let x = *r.pick(&[0xffff_ffffu32, 8 * 1024 * 1024, 8 * 1024 * 1024 + 1, 0x7fff_ffff, 65537]);
                    f[..4].copy_from_slice(&x.to_be_bytes());
                }
                c.send_for(&f, 0.3);
            }
        }
        2 => {
            what = "before CONNECT";
            c = Cli::open(b, enc, "attacker")?;
            let mut w = vec![];
            for _ in 0..r.range(1, 5) {
                let ty = r.range(0, 15) as u8;
                let f = frame_of_any_kind(r, ty.max(1));
                let s = if f.len() < 65000 { c.seal(&f) } else { vec![0xff] };
                w.extend_from_slice(&s);
            }
            c.send_for(&w, 0.3);
        }
        3 => {
            what = "odd CONNECT";
            c = Cli::open(b, enc, "attacker")?;
            let mut p = good_connect(r, &id);
            match r.below(4) {
                0 => {
                    unsupported_connect(r, &mut p);
                }
                1 => p.props.push((0x27, V::U32(*r.pick(&[0u32, 1, 2, 5, 20, 60])))),
                2 => p.client_id = gen::gstr_len(r, 30_000).replace('\0', "x"),
                _ => (),
            }
            let f = if r.chance(1, 3) { mutate::mutant(r, &p).0 } else { encode(&p) };
            if f.len() < 65000 {
                let mut w = c.seal(&f);
                for _ in 0..r.below(4) {
                    let x = c.seal(&odd_request_small(r));
                    w.extend_from_slice(&x);
                }
                c.send_for(&w, 0.3);
            }
        }
        4 | 5 => {
            what = "hostile frames after CONNECT";
            c = connected(b, enc, r, &id)?;
            for _ in 0..r.range(1, 8) {
                let ty = r.range(1, 15) as u8;
                let f = frame_of_any_kind(r, ty);
                if f.len() < 65000 {
                    let w = c.seal(&f);
                    if !c.send_for(&w, 0.3) {
                        break;
                    }
                }
            }
        }
        6 => {
            what = "odd requests";
            c = connected(b, enc, r, &id)?;
            let mut w = vec![];
            for _ in 0..r.range(1, 12) {
                let f = odd_request(r);
                if f.len() < 65000 {
                    let s = c.seal(&f);
                    w.extend_from_slice(&s);
                }
            }
            let seg = *r.pick(&[Seg::Whole, Seg::Random]);
            if seg == Seg::Whole {
                c.send_for(&w, 0.5);
            } else {
                c.send_seg(&w[..w.len().min(20_000)], seg, r);
            }
        }
        7 => {
            what = "flood without reading";
            c = connected(b, enc, r, &id)?;
            let mut w = c.seal(&encode(&Pkt::subscribe(1, &[("#", OPT), ("fl/#", OPT)])));
            let n = *r.pick(&[10usize, 500, 5000]);
            let m = r.bytes(n);
            for _ in 0..r.range(10, 200) {
                let s = c.seal(&encode(&Pkt::publish("fl/x", &m)));
                w.extend_from_slice(&s);
            }
            c.send_for(&w, 0.3);
        }
        8 => {
            what = "authentic garbage or broken messages";
            c = connected(b, true, r, &id)?;
            for _ in 0..r.range(1, 4) {
                let mut w = match r.below(4) {
                    0 => c.seal(&[]),
                    1 => {
                        let n = r.range(1, 200);
                        let x = r.bytes(n);
                        c.seal(&x)
                    }
                    2 => {
                        let mut x = encode(&Pkt::publish("au/x", b"1"));
                        x.extend_from_slice(&r.bytes(3));
                        c.seal(&x)
                    }
                    _ => c.seal(&encode(&Pkt::publish("au/x", b"2"))),
                };
                if r.chance(1, 3) && !w.is_empty() {
                    let i = r.below(w.len());
                    w[i] ^= 1 << r.below(8);
                }
                c.send_for(&w, 0.3);
            }
        }
        _ => {
            what = "reset right after a request";
            c = Cli::open(b, enc, "attacker")?;
            let mut w = c.seal(&encode(&good_connect(r, &id)));
            for _ in 0..r.range(0, 20) {
                let f = match r.below(3) {
                    0 => encode(&Pkt::subscribe(2, &[("#", OPT), ("au/x", OPT)])),
                    1 => encode(&Pkt::publish("au/x", b"3")),
                    _ => encode(&unsupported_request(r, &id).0),
                };
                let s = c.seal(&f);
                w.extend_from_slice(&s);
            }
            let n = r.range(1, w.len());
            c.send_for(&w[..n], 0.3);
        }
    }
    let end = r.below(4);
    match end {
        0 => c.abort(),
        1 => {
            c.half_close();
            std::thread::sleep(Duration::from_millis(r.below(5) as u64));
        }
        2 => std::thread::sleep(Duration::from_millis(r.below(8) as u64)),
        _ => (),
    }
    Ok(format!("{what}, enc {enc}, end {end}"))
}
fn odd_request_small(r: &mut Rng) -> Vec<u8> {
    loop {
        let f = odd_request(r);
        if f.len() < 3000 {
            return f;
        }
    }
}
fn connected(b: &Broker, enc: bool, r: &mut Rng, id: &str) -> Res<Cli> {
    let mut c = Cli::open(b, enc, "attacker")?;
    let w = c.seal(&encode(&good_connect(r, id)));
    c.send_for(&w, 1.0);
    if r.chance(2, 3) {
        // a takeover by another attacker may be quicker
        let _ = c.recv(limit());
    }
    Ok(c)
}
pub fn s04() -> i32 {
    perturb(10, 40);
    let rep = episodes(
        "S04",
        "an attack is non-trivial by (kind, listener, how the connection ended, log level, broker configuration); distinct ones are counted",
        Plan::new(2500, 60000).threads(8).secs(60.0, 700.0),
        |e, r, rep| {
            if e % 8 == 0 {
                LOG.store(!LOG.load(SeqCst), SeqCst);
            }
            let cfg = Cfg {
                keep_alive: *r.pick(&[3u16, 60, 65535]),
                strict: r.chance(1, 4),
                max: *r.pick(&[4096u32, 65536, 65536, 1 << 20]),
                ..Cfg::random(r)
            };
            let b = Broker::start(cfg)?;
            let small = b.cfg.max;
            let mut o = Obs::new(&b, r)?;
            let mut bys = vec![];
            let all = o.src.enc;
            for i in 0..3 {
                // under strict permeability they would not reach each other
                let mut c = Cli::connect(&b, if b.cfg.strict { all } else { i == 2 }, &format!("bystander-{i}"))?;
                c.name = format!("bystander-{i}");
                c.sub_ok(&[(&format!("by/{i}/+"), OPT), ("by/all", OPT)])?;
                bys.push(c);
            }
            for round in 0..6usize {
                let n = r.range(1, 6);
                let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
                let done: Vec<Res<String>> = std::thread::scope(|s| {
                    let b = &b;
                    let hs: Vec<_> = seeds.iter().enumerate().map(|(k, s0)| s.spawn(move || attack(b, &mut Rng::new(*s0), round * 10 + k))).collect();
                    // meanwhile the others go about their business
                    for k in 0..6 {
                        for i in 0..3 {
                            bys[i].publish(&format!("by/{}/x", (i + 1) % 3), format!("{round}.{k}.{i}").as_bytes());
                        }
                    }
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                let mut what = vec![];
                for d in done {
                    what.push(d?);
                }
                let ctx = format!("attacks of this round {what:?}; log {}; {:?}", LOG.load(SeqCst), b.cfg);
                let add = |x: Bad, w: &str| Bad { what: w.into(), detail: format!("{}\n{ctx}\npanics {:?}", x.detail, b.panics()) };
                b.check_panics().map_err(|x| add(x, "a server task panicked"))?;
                for k in 0..6 {
                    for i in 0..3 {
                        bys[(i + 1) % 3].expect_pub(&format!("by/{}/x", (i + 1) % 3), format!("{round}.{k}.{i}").as_bytes()).map_err(|x| add(x, "another client is not served any more"))?;
                    }
                }
                o.publish("by/all", b"a");
                for c in bys.iter_mut() {
                    c.expect_pub("by/all", b"a").map_err(|x| add(x, "another client is not served any more"))?;
                }
                o.until_mark().map_err(|x| add(x, "another client is not served any more"))?;
                for enc in [false, true] {
                    let id = format!("new-{round}-{enc}");
                    let mut c = Cli::connect(&b, enc, &id).map_err(|x| add(x, "a new client cannot connect"))?;
                    c.sub_ok(&[("new/x", OPT)]).map_err(|x| add(x, "a new client is not served"))?;
                    c.publish("new/x", id.as_bytes());
                    c.expect_pub("new/x", id.as_bytes()).map_err(|x| add(x, "a new client is not served"))?;
                    drop(c);
                    o.until_mark().map_err(|x| add(x, "another client is not served any more"))?;
                }
                let names = b.clients()?;
                for i in 0..3 {
                    if !names.contains(&format!("bystander-{i}")) || !b.subscribers(&format!("by/{i}/x"), &[&format!("bystander-{i}")])?.contains_key(&format!("bystander-{i}")) {
                        return bad("another client lost its registration or subscription", format!("{names:?}\n{ctx}"));
                    }
                }
                for w in what {
                    rep.evaluations += 1;
                    rep.distinct.insert(fnv(format!("{w}{}{small}{}", LOG.load(SeqCst), b.cfg.queue).as_bytes()));
                    rep.count(&format!("attack: {}", w.split(',').next().unwrap()), 1);
                }
            }
            // nothing of an attacker stays for ever
            if e % 4 == 0 {
                let ok = wait(limit(), || matches!(b.clients(), Ok(n) if n.iter().all(|c| !c.starts_with('x'))));
                if !ok {
                    return bad("a hostile client stays registered after its connection ended", format!("{:?}", b.clients()?));
                }
            }
            b.check_panics()
        },
    );
    LOG.store(false, SeqCst);
    finish(rep)
}

/// a packet of exactly this many bytes, when there is one
fn sized(r: &mut Rng, mut p: Pkt, total: usize) -> Option<Pkt> {
    if r.chance(1, 3) {
        p.props.push((0x03, V::S("text".into())));
    }
    if r.chance(1, 3) {
        p.props.push((0x26, V::S("ab".into())));
    }
    let base = encode(&p).len();
    if base > total {
        return None;
    }
    for n in (total - base).saturating_sub(4)..=total - base {
        p.payload = vec![0; n];
        if encode(&p).len() == total {
            p.payload = r.bytes(n);
            return Some(p);
        }
    }
    None
}
pub fn s07() -> i32 {
    perturb(10, 50);
    let rep = episodes(
        "S07",
        "a packet is non-trivial by (kind, listener, distance to the limit, which receivers it fits); distinct ones are counted",
        Plan::new(1200, 30000).threads(8).secs(60.0, 700.0),
        |_, r, rep| {
            let max = match r.below(3) {
                0 => *r.pick(&[128u32, 129, 131, 150, 200, 256, 1000, 4096]),
                1 => *r.pick(&[16_384u32, 16_385, 16_386, 16_387, 16_388, 16_389, 65_518, 65_519, 65_520, 65_535, 65_536, 65_537]),
                _ => *r.pick(&[r.clone().range(128, 2000) as u32, 100_000, 200_000, 2_097_155]),
            };
            let b = Broker::start(Cfg { max, ..Cfg::random(r) })?;
            let m = max as usize;
            struct R {
                c: Cli,
                fits: usize,
            }
            let mut rs = vec![];
            for i in 0..5 {
                let enc = crypt(r.chance(2, 5));
                let mut p = Pkt::connect(&format!("r{i}"), 60);
                let mut fits = if enc { m.min(65_519) } else { m };
                if i > 0 && r.chance(2, 3) {
                    let a = match r.below(4) {
                        0 => r.range(100, 300),
                        1 => (m as i64 + r.range(0, 4) as i64 - 2) as usize,
                        2 => m / 2,
                        _ => *r.pick(&[127usize, 128, 131, 16_386, 65_519, 65_535, 0xffff_ffff]),
                    }
                    .max(100);
                    p.props.push((0x27, V::U32(a as u32)));
                    fits = fits.min(a);
                }
                let (mut c, _) = Cli::connect_with(&b, enc, &p)?;
                c.name = format!("receiver {i} enc {enc} announced {:?}, limit {fits}", c.announced);
                c.sub_ok(&[("s7/#", OPT)])?;
                rs.push(R { c, fits });
            }
            let mut marks = Cli::connect(&b, false, "marks")?;
            let mut mark = 0;
            let ctx0 = format!("{:?} receivers {:?}", b.cfg, rs.iter().map(|x| x.c.name.clone()).collect::<Vec<_>>());
            // everyone has received exactly these since the last mark
            let mut check = |rs: &mut Vec<R>, sent: &[Pkt], ctx: &str| -> Res<()> {
                mark += 1;
                let t = format!("{mark}");
                marks.publish("s7/mark", t.as_bytes());
                for x in rs.iter_mut() {
                    for p in sent {
                        let n = encode(p).len();
                        if n <= x.fits {
                            match x.c.recv(limit()) {
                                Ev::Pkt(q, _) if q.normalized() == p.clone().normalized() => (),
                                e => return bad("a packet within the size limits is not delivered", format!("{}: expected {n} bytes {}, got {}\n{ctx}\n{ctx0}", x.c.name, short(p), ev(&e))),
                            }
                        }
                    }
                    match x.c.recv(limit()) {
                        Ev::Pkt(q, _) if q.topic == "s7/mark" && q.payload == t.as_bytes() => (),
                        Ev::Pkt(q, n) => return bad("a packet above a size limit is processed", format!("{}: got {n} bytes {}\n{ctx}\n{ctx0}", x.c.name, short(&q))),
                        e => return bad("a client that cannot take a large message is not served any more", format!("{}: {}\n{ctx}\n{ctx0}", x.c.name, ev(&e))),
                    }
                }
                Ok(())
            };
            for k in 0..10 {
                let enc = crypt(r.chance(1, 3));
                let me = format!("s{k}");
                let cap = if enc { m.min(65_519) } else { m };
                match r.below(8) {
                    0..=2 => {
                        // one packet around the limit
                        let size = (cap as i64 + r.range(0, 5) as i64 - 2) as usize;
                        if enc && size > 65_519 {
                            continue;
                        }
                        let Some(p) = sized(r, Pkt::publish(&format!("s7/{k}"), b""), size) else { continue };
                        let mut c = Cli::connect(&b, enc, &me)?;
                        let w = c.seal(&encode(&p));
                        c.send_seg(&w, *r.clone().pick(&[Seg::Whole, Seg::Whole, Seg::Random]), r);
                        let ctx = format!("PUBLISH of {size} bytes, encrypted {enc}");
                        if size <= m {
                            // its sender goes on
                            c.sub_ok(&[("own", OPT)]).map_err(|x| Bad { what: "the sender of a packet within the limit is not served any more".into(), detail: format!("{}\n{ctx}\n{ctx0}", x.detail) })?;
                            check(&mut rs, &[p], &ctx)?;
                        } else {
                            c.expect_closed("after a packet above the maximum size").map_err(|x| Bad { what: x.what, detail: format!("{}\n{ctx}\n{ctx0}", x.detail) })?;
                            check(&mut rs, &[], &ctx)?;
                        }
                        rep.evaluations += 1;
                        rep.count(if size <= m { "packets_within" } else { "packets_above" }, 1);
                        rep.distinct.insert(fnv(format!("p{enc}{}{}", size as i64 - m as i64, rs.iter().filter(|x| x.fits >= size).count()).as_bytes()));
                    }
                    3 => {
                        // around the limits of the receivers
                        let mut sent = vec![];
                        let mut c = Cli::connect(&b, enc, &me)?;
                        let mut w = vec![];
                        for x in 0..rs.len() {
                            let size = ((rs[x].fits as i64 + r.range(0, 4) as i64 - 2) as usize).min(cap);
                            if let Some(p) = sized(r, Pkt::publish(&format!("s7/{k}/{x}"), b""), size) {
                                let f = c.seal(&encode(&p));
                                w.extend_from_slice(&f);
                                rep.distinct.insert(fnv(format!("r{enc}{}{}", size as i64 - rs[x].fits as i64, rs.iter().filter(|x| x.fits >= size).count()).as_bytes()));
                                sent.push(p);
                            }
                        }
                        c.send_seg(&w, Seg::Whole, r);
                        rep.evaluations += sent.len() as u64;
                        rep.count("packets_around_receiver_limits", sent.len() as u64);
                        c.sub_ok(&[("own", OPT)]).map_err(|x| Bad { what: "the sender of a packet within the limit is not served any more".into(), detail: format!("{}\n{ctx0}", x.detail) })?;
                        check(&mut rs, &sent, "around the receivers' limits")?;
                    }
                    4 | 5 => {
                        // a long pipeline whose total exceeds the maximum many times, maybe with one too large at the end
                        let mut c = Cli::connect(&b, enc, &me)?;
                        let mut sent = vec![];
                        let mut w = vec![];
                        let total = (m * 4).min(600_000);
                        while w.len() < total && sent.len() < 300 {
                            let n = r.range(40, cap.min(60_000));
                            if let Some(p) = sized(r, Pkt::publish(&format!("s7/{k}"), b""), n) {
                                let f = c.seal(&encode(&p));
                                w.extend_from_slice(&f);
                                sent.push(p);
                            }
                        }
                        let mut too = false;
                        let mut behind = vec![];
                        if r.chance(1, 2) {
                            let n = m + r.range(1, 3);
                            if !enc || n <= 65_519 {
                                if let Some(p) = sized(r, Pkt::publish("s7/too", b""), n) {
                                    too = true;
                                    // once the ones before it are through: what a connection sent
                                    // just before its end need not be delivered
                                    behind = encode(&p);
                                }
                            }
                        }
                        let ctx = format!("{} pipelined packets, encrypted {enc}, one too large behind them: {too}", sent.len());
                        let seg = *r.pick(&[Seg::Whole, Seg::Random]);
                        std::thread::scope(|s| {
                            let h = s.spawn(|| {
                                c.send_seg(&w, seg, &mut Rng::new(k as u64));
                                c
                            });
                            let res = drain_while(&mut rs.iter_mut().map(|x| (&mut x.c, x.fits)).collect::<Vec<_>>(), &sent);
                            let mut c = h.join().unwrap();
                            res.map_err(|x| Bad { what: x.what, detail: format!("{}\n{ctx}\n{ctx0}", x.detail) })?;
                            if too {
                                let mut w = c.seal(&behind);
                                let f = c.seal(&encode(&Pkt::publish("s7/behind", b"x")));
                                w.extend_from_slice(&f);
                                c.send_seg(&w, seg, &mut Rng::new(k as u64));
                                c.expect_closed("after a packet above the maximum size").map_err(|x| Bad { what: x.what, detail: format!("{}\n{ctx}\n{ctx0}", x.detail) })?;
                            } else {
                                c.sub_ok(&[("own", OPT)]).map_err(|x| Bad { what: "the sender of a packet within the limit is not served any more".into(), detail: format!("{}\n{ctx}\n{ctx0}", x.detail) })?;
                            }
                            Ok(())
                        })?;
                        check(&mut rs, &[], &ctx)?;
                        rep.evaluations += 1;
                        rep.count("pipelines", 1);
                        rep.count("packets_pipelined", sent.len() as u64);
                        rep.distinct.insert(fnv(format!("l{enc}{too}{}", sent.len().min(20)).as_bytes()));
                    }
                    6 => {
                        // SUBSCRIBE and CONNECT around the limit
                        let size = (cap as i64 + r.range(0, 5) as i64 - 2) as usize;
                        if size > 65_000 {
                            continue;
                        }
                        let sub = r.chance(1, 2);
                        let mk = |n: usize| {
                            if sub {
                                let mut p = Pkt::subscribe(9, &[("own", OPT)]);
                                p.props.push((0x26, V::S("u".repeat(n))));
                                p
                            } else {
                                let mut p = Pkt::connect(&me, 60);
                                p.props.push((0x26, V::S("u".repeat(n))));
                                p
                            }
                        };
                        let Some(p) = (size.saturating_sub(60)..size).map(mk).find(|p| encode(p).len() == size) else { continue };
                        let ctx = format!("{} of {size} bytes, encrypted {enc}", if sub { "SUBSCRIBE" } else { "CONNECT" });
                        let mut c = if sub { Cli::connect(&b, enc, &me)? } else { Cli::open(&b, enc, &me)? };
                        c.send(&p);
                        if size <= m {
                            match c.recv(limit()) {
                                Ev::Pkt(q, _) if q.ty == if sub { SUBACK } else { CONNACK } && q.reason == 0 => (),
                                e => return bad("a packet within the size limits is not processed", format!("{}\n{ctx}\n{ctx0}", ev(&e))),
                            }
                        } else {
                            let v = c.expect_closed("after a packet above the maximum size").map_err(|x| Bad { what: x.what, detail: format!("{}\n{ctx}\n{ctx0}", x.detail) })?;
                            if v.iter().any(|p| p.ty == SUBACK || p.ty == CONNACK && p.reason == 0) {
                                return bad("a packet above a size limit is processed", format!("{ctx}\n{ctx0}"));
                            }
                        }
                        check(&mut rs, &[], &ctx)?;
                        rep.evaluations += 1;
                        rep.count("other_packets", 1);
                        rep.distinct.insert(fnv(format!("o{enc}{sub}{}", size as i64 - m as i64).as_bytes()));
                    }
                    _ => {
                        // a maximum that even the acknowledgements exceed
                        // what the acknowledgement needs is known from another client's
                        let need = match Cli::open(&b, enc, "measure").and_then(|mut c| {
                            let mut p = Pkt::connect("measure", 60);
                            p.props.push((0x27, V::U32(1000)));
                            c.send(&p);
                            Ok(c.recv(limit()))
                        })? {
                            Ev::Pkt(q, n) if q.ty == CONNACK && q.reason == 0 => n as u32,
                            e => return bad("a CONNECT is not answered", format!("{}\n{ctx0}", ev(&e))),
                        };
                        let a = if r.chance(1, 3) { need + r.range(0, 2) as u32 - 1 } else { r.range(1, 75) as u32 };
                        let mut p = Pkt::connect(&me, 60);
                        p.props.push((0x27, V::U32(a)));
                        let mut c = Cli::open(&b, enc, &format!("tiny {a}"))?;
                        c.announced = Some(a);
                        c.send(&p);
                        match c.recv(limit()) {
                            Ev::Closed if a >= need => return bad("a packet within the size limits is not delivered", format!("CONNACK of {need} bytes to a client that takes {a}\n{ctx0}")),
                            Ev::Closed => {
                                let gone = wait(limit(), || matches!(b.has_client(&me), Ok(false)));
                                if !gone {
                                    return bad("a client that cannot take its CONNACK is registered", format!("maximum {a}\n{ctx0}"));
                                }
                            }
                            Ev::Pkt(q, _) if q.ty == CONNACK && q.reason == 0 => {
                                // an acknowledgement that is too large must not be sent
                                let fs: Vec<String> = (0..a as usize).map(|i| format!("{i:02}")).collect();
                                let s: Vec<(&str, u8)> = fs.iter().map(|f| (f.as_str(), OPT)).collect();
                                let big = Pkt::subscribe(3, &s);
                                if encode(&big).len() <= cap {
                                    c.send(&big);
                                }
                                c.send(&Pkt::subscribe(4, &[("s7/t", OPT)]));
                                c.publish("s7/t", b"ok");
                                let mut got = vec![];
                                loop {
                                    match c.recv(limit()) {
                                        Ev::Pkt(q, _) if q.ty == SUBACK => got.push(q),
                                        Ev::Pkt(q, _) if q.ty == PUBLISH && q.payload == b"ok" => break,
                                        e => return bad("a client that cannot take a large message is not served any more", format!("maximum {a}: {}\n{ctx0}", ev(&e))),
                                    }
                                }
                                if got.iter().all(|q| q.id != Some(4)) {
                                    return bad("a SUBSCRIBE is not acknowledged", format!("maximum {a}\n{ctx0}"));
                                }
                                check(&mut rs, &[Pkt::publish("s7/t", b"ok")], "tiny maximum")?;
                            }
                            e => return bad("a CONNECT with a small maximum packet size is answered wrongly", format!("maximum {a}: {}\n{ctx0}", ev(&e))),
                        }
                        rep.evaluations += 1;
                        rep.count("tiny_maxima", 1);
                        rep.distinct.insert(fnv(format!("t{enc}{a}").as_bytes()));
                    }
                }
            }
            b.check_panics()
        },
    );
    finish(rep)
}
/// receivers take what fits them while it is still being sent
fn drain_while(rs: &mut [(&mut Cli, usize)], sent: &[Pkt]) -> Res<()> {
    for p in sent {
        let n = encode(p).len();
        for (c, fits) in rs.iter_mut() {
            if n <= *fits {
                match c.recv(limit()) {
                    Ev::Pkt(q, _) if q.normalized() == p.clone().normalized() => (),
                    e => return bad("a packet within the size limits is not delivered", format!("{}: expected {n} bytes {}, got {}", c.name, short(p), ev(&e))),
                }
            }
        }
    }
    Ok(())
}
