//! S02 (order, no loss, no duplication under load) and S17 (stalled clients hold nobody up).
use crate::cli::*;
use crate::env::*;
use crate::s_hist::finish;
use crate::server::*;
use refmqtt::matcher::matches;
use refmqtt::rng::{fnv, Rng};
use refmqtt::wire::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::Duration;

struct PubPlan {
    msgs: Vec<(String, Vec<u8>)>,
    style: usize,
    enc: bool,
    /// publishers that receive as well
    also: Option<SubPlan>,
}
struct SubPlan {
    filters: Vec<String>,
    enc: bool,
    slow: bool,
    split: bool,
}
fn body_of(p: usize, k: usize, r: &mut Rng) -> Vec<u8> {
    let mut v = format!("{p}:{k}|").into_bytes();
    let n = match r.below(40) {
        0 => r.range(1000, 9000),
        1..=3 => r.range(100, 600),
        _ => r.below(12),
    };
    v.extend_from_slice(&r.bytes(n));
    v
}
fn parse(b: &[u8]) -> Option<(usize, usize)> {
    let e = b.iter().position(|c| *c == b'|')?;
    let s = std::str::from_utf8(&b[..e]).ok()?;
    let (a, k) = s.split_once(':')?;
    Some((a.parse().ok()?, k.parse().ok()?))
}
/// one publisher, one subscriber, more messages than any counter of 16 bits can tell apart
fn long_stream(k: usize, r: &mut Rng, rep: &mut refmqtt::report::Report) -> Res<()> {
    const N: usize = 66_500;
    let cfg = Cfg { queue: *r.pick(&[0usize, 100, 1000, 1 << 20]), workers: r.range(1, 4), ..Cfg::default() };
    let b = Broker::start(cfg)?;
    let mut s = Cli::connect(&b, k % 2 == 1, "long-sub")?;
    s.sub_ok(&[("long/#", OPT)])?;
    let mut p = Cli::connect(&b, k / 2 % 2 == 1, "long-pub")?;
    let seed = r.next();
    let (sent, got) = std::thread::scope(|t| {
        let h = t.spawn(|| {
            let mut r = Rng::new(seed);
            let mut w = vec![];
            for i in 0..N {
                let f = p.seal(&encode(&Pkt::publish("long/x", &(i as u32).to_be_bytes())));
                w.extend_from_slice(&f);
                if (r.chance(1, 200) || i + 1 == N) && !p.send_raw(&std::mem::take(&mut w)) {
                    return bad("the broker closed the connection of a well-behaved client", format!("after {i} publications"));
                }
            }
            Ok(())
        });
        let mut got = Ok(());
        for i in 0..N {
            match s.recv(limit()) {
                Ev::Pkt(x, _) if x.ty == PUBLISH && x.payload == (i as u32).to_be_bytes() => (),
                e => {
                    got = bad("a publication of a long stream is lost, altered or overtaken", format!("expected number {i} of {N}: {}; cfg {:?} panics {:?}", ev(&e), b.cfg, b.panics()));
                    break;
                }
            }
        }
        if got.is_err() {
            s.half_close();
        }
        (h.join().unwrap(), got)
    });
    got?;
    sent?;
    match s.recv(Deadline::new(0.05)) {
        Ev::Timeout => (),
        e => return bad("a publication is delivered twice or out of order", format!("after {N} publications: {}", ev(&e))),
    }
    rep.evaluations += N as u64;
    rep.count("long_streams", 1);
    b.check_panics()
}
pub fn s02() -> i32 {
    perturb(25, 100);
    let merged = std::sync::Mutex::new(std::collections::HashSet::new());
    let rep = episodes(
        "S02",
        "a stream of one publisher at one subscriber is non-trivial when it interleaves with another publisher's; distinct = different merge orders seen by subscribers",
        Plan::new(700, 20000).threads(4),
        |e, r, rep| {
            if e % 100 == 33 {
                return long_stream(e / 100, r, rep);
            }
            let cfg = Cfg {
                queue: *r.pick(&[0usize, 0, 1, 7, 40, 41, 100, 400, 1000, 5000, 1 << 20]),
                workers: *r.pick(&[1usize, 2, 2, 4]),
                ..Cfg::default()
            };
            let b = Broker::start(cfg)?;
            let wide = r.chance(1, 25);
            let (np, ns) = (if wide { r.range(20, 60) } else { r.range(1, 5) }, r.range(1, 4));
            let choices = ["#", "all/#", "all/x", "p/#", "p/+", "p/+/0", "+/+", "all/+/y", "+/0/y", "p/0/#", "p/1/+", "+/#"];
            let plan = |r: &mut Rng| {
                let mut filters: Vec<String> = (0..r.range(1, 5)).map(|_| r.pick(&choices).to_string()).collect();
                if r.chance(1, 3) {
                    filters.push("#".into());
                }
                SubPlan { filters, enc: r.chance(1, 3), slow: r.chance(1, 5), split: r.chance(1, 2) }
            };
            let mut pubs = vec![];
            for p in 0..np {
                let n = if wide { r.range(5, 30) } else { r.range(40, 250) };
                let mut msgs: Vec<(String, Vec<u8>)> = vec![];
                for k in 0..n {
                    if k > 0 && r.chance(1, 12) {
                        // the same once more: two publications that nothing tells apart
                        msgs.push(msgs[k - 1].clone());
                        continue;
                    }
                    let t = match r.below(4) {
                        0 => "all/x".to_string(),
                        1 => format!("p/{p}"),
                        2 => format!("p/{p}/{}", k % 3),
                        _ => format!("all/{}/y", k % 2),
                    };
                    msgs.push((t, body_of(p, k, r)));
                }
                let also = if r.chance(1, 2) { Some(plan(r)) } else { None };
                pubs.push(PubPlan { msgs, style: r.below(4), enc: r.chance(1, 3), also });
            }
            let subs: Vec<SubPlan> = (0..ns).map(|_| plan(r)).collect();
            let setup = |c: &mut Cli, s: &SubPlan| -> Res<()> {
                c.name = format!("{} {:?}", c.name, s.filters);
                if s.split {
                    for f in &s.filters {
                        c.sub_ok(&[(f, OPT)])?;
                    }
                    Ok(())
                } else {
                    c.sub_ok(&s.filters.iter().map(|f| (f.as_str(), OPT)).collect::<Vec<_>>())
                }
            };
            let mut sc = vec![];
            for (i, s) in subs.iter().enumerate() {
                let mut c = Cli::connect(&b, s.enc, &format!("sub{i}"))?;
                setup(&mut c, s)?;
                sc.push((c, s));
            }
            let mut pc = vec![];
            for (i, p) in pubs.iter().enumerate() {
                let mut c = Cli::connect(&b, p.enc, &format!("pub{i}"))?;
                pc.push(c.sender());
                if let Some(s) = &p.also {
                    setup(&mut c, s)?;
                    sc.push((c, s));
                }
            }
            let churn = r.chance(1, 2);
            let done = AtomicBool::new(false);
            let seed = r.next();
            let got = AtomicU64::new(0);
            let mut results: Vec<Res<()>> = vec![];
            std::thread::scope(|sc_| {
                let mut hs = vec![];
                let (b, pubs, done, got, merged) = (&b, &pubs, &done, &got, &merged);
                for (mut c, plan) in sc.drain(..) {
                    hs.push(sc_.spawn(move || -> Res<()> {
                        let want: Vec<Vec<usize>> = pubs
                            .iter()
                            .map(|p| p.msgs.iter().enumerate().filter(|(_, m)| plan.filters.iter().any(|f| matches(f, &m.0))).map(|(k, m)| parse(&m.1).map_or(k, |x| x.1)).collect())
                            .collect();
                        let total: usize = want.iter().map(|w| w.len()).sum();
                        let mut at = vec![0usize; want.len()];
                        let mut order = vec![];
                        for n in 0..=total {
                            // one more than expected: a duplicate would show up here
                            let d = if n == total { Deadline::new(0.05) } else { limit() };
                            match c.recv(d) {
                                Ev::Pkt(p, _) if p.ty == PUBLISH => {
                                    let Some((a, k)) = parse(&p.payload) else {
                                        return bad("a publication was altered", format!("{} got {}", c.name, short(&p)));
                                    };
                                    if a >= pubs.len() || k >= pubs[a].msgs.len() || pubs[a].msgs[k] != (p.topic.clone(), p.payload.clone()) {
                                        return bad("a publication was altered", format!("{} got {}", c.name, short(&p)));
                                    }
                                    match want[a].get(at[a]) {
                                        Some(x) if *x == k => at[a] += 1,
                                        x => {
                                            let what = if want[a][..at[a]].contains(&k) {
                                                "a publication is delivered twice or out of order"
                                            } else if want[a].contains(&k) {
                                                "a publication is lost or overtaken by a later one"
                                            } else {
                                                "a publication is delivered without a matching subscription"
                                            };
                                            return bad(what, format!("{} expected number {x:?} of publisher {a}, got number {k}; cfg {:?}", c.name, b.cfg));
                                        }
                                    }
                                    order.push(a as u8);
                                    got.fetch_add(1, SeqCst);
                                    if plan.slow && n % 16 == 0 {
                                        std::thread::sleep(Duration::from_micros(700));
                                    }
                                }
                                Ev::Timeout if n == total => (),
                                e => {
                                    return bad(
                                        "a publication is never delivered",
                                        format!("{}: {} after {n} of {total}; per publisher {at:?} of {:?}; cfg {:?} panics {:?}", c.name, ev(&e), want.iter().map(|w| w.len()).collect::<Vec<_>>(), b.cfg, b.panics()),
                                    )
                                }
                            }
                        }
                        if order.iter().any(|x| *x != order[0]) {
                            merged.lock().unwrap().insert(fnv(&order));
                        }
                        Ok(())
                    }));
                }
                let mut keep = vec![];
                for (i, (mut c, plan)) in pc.drain(..).zip(pubs.iter()).enumerate() {
                    let mut r = Rng::new(seed ^ i as u64);
                    keep.push(sc_.spawn(move || -> (Cli, Res<()>) {
                        let mut w = vec![];
                        for (k, (t, m)) in plan.msgs.iter().enumerate() {
                            let f = c.seal(&encode(&Pkt::publish(t, m)));
                            match plan.style {
                                0 => w.extend_from_slice(&f), // one burst
                                1 => {
                                    w.extend_from_slice(&f);
                                    if r.chance(1, 10) {
                                        if !c.send_raw(&w) {
                                            return (c, bad("the broker closed the connection of a well-behaved client", format!("publisher {i} at {k}")));
                                        }
                                        w.clear();
                                    }
                                }
                                _ => {
                                    let seg = if plan.style == 2 { Seg::Whole } else { Seg::Random };
                                    if !c.send_seg(&f, seg, &mut r) {
                                        return (c, bad("the broker closed the connection of a well-behaved client", format!("publisher {i} at {k}")));
                                    }
                                }
                            }
                        }
                        let ok = c.send_raw(&w);
                        (c, if ok { Ok(()) } else { bad("the broker closed the connection of a well-behaved client", format!("publisher {i}")) })
                    }));
                }
                // bystanders that come and go, also with each other's identifier
                let mut by = vec![];
                if churn {
                    for t in 0..2 {
                        let mut r = Rng::new(seed ^ (100 + t));
                        by.push(sc_.spawn(move || -> Res<()> {
                            while !done.load(SeqCst) {
                                let id = format!("by{}", r.below(2));
                                let enc = crypt(r.chance(1, 3));
                                let mut c = Cli::open(b, enc, &id)?;
                                c.send(&Pkt::connect(&id, 60));
                                c.recv(Deadline::new(0.2));
                                c.send(&Pkt::subscribe(3, &[("#", OPT), ("p/+", OPT | NL)]));
                                if r.chance(1, 2) {
                                    c.recv(Deadline::new(0.01));
                                }
                                if r.chance(1, 2) {
                                    c.abort();
                                }
                            }
                            Ok(())
                        }));
                    }
                }
                let mut clis = vec![];
                for k in keep {
                    let (c, x) = k.join().unwrap();
                    clis.push(c);
                    results.push(x);
                }
                for h in hs {
                    results.push(h.join().unwrap());
                }
                done.store(true, SeqCst);
                for h in by {
                    results.push(h.join().unwrap());
                }
                drop(clis);
            });
            for x in results {
                x?;
            }
            b.check_panics()?;
            rep.evaluations += got.load(SeqCst);
            rep.count("deliveries_checked", got.load(SeqCst));
            let also = pubs.iter().filter(|p| p.also.is_some()).count();
            rep.count("streams", (np * (ns + also)) as u64);
            rep.count("clients_publishing_and_receiving", also as u64);
            Ok(())
        },
    );
    let mut rep = rep;
    rep.distinct = merged.into_inner().unwrap();
    finish(rep)
}

/// connections that are not going to finish connecting
fn stuck(b: &Broker, n: usize, r: &mut Rng) -> Res<Vec<Cli>> {
    let mut v = vec![];
    for i in 0..n {
        let enc = crypt(i % 2 == 1);
        let mut c = Cli::open_raw(b, enc, "stuck")?;
        match r.below(if i % 50 == 1 { 4 } else { 3 }) {
            0 => (),
            1 => drop(c.send_raw(&[0x10])),
            2 if enc => drop(c.send_raw(&noise_frame(&r.bytes(48))[..40])),
            2 => drop(c.send_raw(&encode(&Pkt::connect("stuck", 60))[..12])),
            _ => c = Cli::open(b, true, "stuck")?,
        };
        v.push(c);
    }
    Ok(v)
}
/// subscribers that do not read for very long
fn patience(r: &mut Rng, rep: &mut refmqtt::report::Report) -> Res<()> {
    let secs = if refmqtt::report::thorough() { 400 } else { 65 };
    let b = Broker::start(Cfg::random(r))?;
    let mut stalled = vec![];
    for (i, f) in ["flood/#", "flood/a", "#"].iter().enumerate() {
        for enc in [false, true] {
            let mut c = Cli::connect(&b, enc, &format!("stalled{i}{enc}"))?;
            c.sub_ok(&[(f, OPT)])?;
            stalled.push((c, *f == "#"));
        }
    }
    let mut src = Cli::connect(&b, false, "src")?;
    let mut dst = Cli::connect(&b, true, "dst")?;
    dst.sub_ok(&[("live/#", OPT)])?;
    let mut sent = vec![];
    for k in 0..250 {
        let mut m = format!("{k}|").into_bytes();
        m.extend_from_slice(&r.bytes(60_000));
        src.publish("flood/a", &m);
        sent.push(("flood/a".to_string(), m));
    }
    let begin = std::time::Instant::now();
    let mut n = 0;
    while begin.elapsed().as_secs() < secs {
        let m = format!("live {n}").into_bytes();
        src.publish("live/x", &m);
        if let Err(x) = dst.expect_pub("live/x", &m) {
            return bad("a stalled client delays deliveries between others", format!("{} after {:?}", x.detail, begin.elapsed()));
        }
        sent.push(("live/x".into(), m));
        if n % 3 == 0 {
            let m = format!("late {n}").into_bytes();
            src.publish("flood/a", &m);
            sent.push(("flood/a".into(), m));
        }
        n += 1;
        rep.evaluations += 1;
        std::thread::sleep(std::time::Duration::from_millis(500));
    }
    for (c, all) in stalled.iter_mut() {
        for (k, (t, m)) in sent.iter().filter(|(t, _)| *all || t.starts_with("flood")).enumerate() {
            match c.recv(limit()) {
                Ev::Pkt(p, _) if p.ty == PUBLISH && p.topic == *t && p.payload == *m => (),
                e => return bad("a subscriber that resumes reading misses messages", format!("{}: message {k} on {t} (after {secs} s without reading); got {}", c.name, ev(&e))),
            }
            rep.count("backlog_messages_received", 1);
        }
    }
    rep.count("seconds_without_reading", secs);
    b.check_panics()
}
pub fn s17() -> i32 {
    let huge = std::sync::Mutex::new(());
    perturb(10, 50);
    let rep = episodes(
        "S17",
        "an exchange between healthy clients is non-trivial while other clients are stalled; distinct by the set of stalled kinds, backlog size and sender kind",
        Plan::new(300, 6000).threads(4).secs(40.0, 600.0),
        |e, r, rep| {
            if e == 0 && std::env::var("VERIF_EPISODES").is_err() {
                return patience(r, rep);
            }
            // one at a time with very many connections or messages
            let (crowd, deep) = (e % 20 == 1, e % 40 == 2);
            let _one = if crowd || deep { Some(huge.lock()) } else { None };
            let b = Broker::start(Cfg { queue: *r.pick(&[0usize, 1, 400, 5000, 1 << 20]), workers: *r.pick(&[1usize, 2, 4]), ..Cfg::default() })?;
            let mut kinds = vec![];
            // subscribers that stop reading
            let mut stalled = vec![];
            for i in 0..r.range(1, 2) {
                let enc = crypt(r.chance(1, 3));
                let mut c = Cli::connect(&b, enc, &format!("stalled{i}"))?;
                c.sub_ok(&[("flood/#", OPT)])?;
                kinds.push(format!("reader-{enc}"));
                stalled.push((c, 0usize));
            }
            // clients stopping half-way
            let mut half: Vec<Cli> = vec![];
            for i in 0..r.range(2, 12) {
                let k = r.below(8);
                let enc = crypt(matches!(k, 3..=6));
                let mut c = Cli::open_raw(&b, enc, "half")?;
                match k {
                    0 => (), // nothing at all
                    1 => {
                        let w = encode(&Pkt::connect("half", 60));
                        let n = r.range(1, w.len() - 1);
                        c.send_raw(&w[..n]);
                    }
                    2 | 6 => {
                        c = Cli::connect(&b, enc, &format!("half{i}"))?;
                        let w = c.seal(&encode(&Pkt::publish("half/t", &r.bytes(300))));
                        let n = r.range(1, w.len() - 1);
                        c.send_raw(&w[..n]);
                    }
                    3 => (),
                    4 => {
                        c.send_raw(&noise_frame(&r.bytes(48))[..r.range(1, 51)]);
                    }
                    5 => {
                        c = Cli::open(&b, true, "half")?;
                        let w = c.seal(&encode(&Pkt::connect("half", 60)));
                        let n = r.range(1, w.len() - 1);
                        c.send_raw(&w[..n]);
                    }
                    _ => {
                        // sends requests but never reads the answers
                        c = Cli::connect(&b, false, &format!("deaf{i}"))?;
                        c.sub_ok(&[("deaf/x", OPT)])?;
                        // (its own publications come back to it until the broker cannot write any more)
                        let p = encode(&Pkt::publish("deaf/x", &r.bytes(60_000)));
                        let mut w = encode(&Pkt::subscribe(9, &[("deaf/x", OPT), ("deaf/y", OPT)]));
                        for _ in 0..140 {
                            w.extend_from_slice(&p);
                        }
                        c.send_for(&w, 0.3);
                    }
                }
                kinds.push(format!("half-{k}"));
                half.push(c);
            }
            let mut crowds = vec![];
            if crowd || r.chance(1, 10) {
                let n = if crowd { *r.pick(&[600usize, 1300, 2300]) } else { r.range(20, 150) };
                crowds = stuck(&b, n, r)?;
                rep.count("stuck_connections", n as u64);
                kinds.push(format!("stuck-{}", n.ilog2()));
            }
            let enc = crypt(r.chance(1, 3));
            let keep_out = |x: Bad, kinds: &[String]| Bad { what: "stalled clients keep new ones out".into(), detail: format!("{}\nstalled: {kinds:?}", x.detail) };
            let mut src = Cli::connect(&b, enc, "src").map_err(|x| keep_out(x, &kinds))?;
            let mut dst = Cli::connect(&b, r.chance(1, 3), "dst").map_err(|x| keep_out(x, &kinds))?;
            dst.sub_ok(&[("live/#", OPT)])?;
            // backlog: large messages to fill the sockets, then many small ones
            let mut sent: Vec<Vec<u8>> = vec![];
            let big = r.range(60, 160);
            let small = if deep { *r.pick(&[70_000usize, 140_000, 300_000]) } else { *r.pick(&[0usize, 300, 3000, 12_000]) };
            let mut live = 0u32;
            let mut check = |src: &mut Cli, dst: &mut Cli, rep: &mut refmqtt::report::Report| -> Res<()> {
                let m = format!("L{live}");
                live += 1;
                src.publish("live/t", m.as_bytes());
                if let Err(x) = dst.expect_pub("live/t", m.as_bytes()) {
                    return bad("a stalled client delays deliveries between others", format!("{}\nstalled: {kinds:?} panics {:?}", x.detail, b.panics()));
                }
                rep.evaluations += 1;
                Ok(())
            };
            for k in 0..big {
                let mut m = format!("B{k}|").into_bytes();
                m.extend_from_slice(&r.bytes(60_000));
                src.publish("flood/b", &m);
                sent.push(m);
                if k % 8 == 0 {
                    check(&mut src, &mut dst, rep)?;
                }
            }
            let mut w = vec![];
            for k in 0..small {
                let m = format!("S{k}|").into_bytes();
                let f = src.seal(&encode(&Pkt::publish("flood/s", &m)));
                w.extend_from_slice(&f);
                sent.push(m);
                if k % 10_000 == 9_999 {
                    src.send_raw(&w);
                    w.clear();
                    check(&mut src, &mut dst, rep)?;
                }
            }
            src.send_raw(&w);
            check(&mut src, &mut dst, rep)?;
            // newcomers on both listeners
            for i in 0..3 {
                let mut c = match Cli::connect(&b, i % 2 == 1, &format!("new{i}")) {
                    Ok(c) => c,
                    Err(x) => return bad("stalled clients keep new ones out", format!("{}\nstalled: {kinds:?}", x.detail)),
                };
                c.sub_ok(&[("new/t", OPT)])?;
                c.publish("new/t", b"n");
                c.expect_pub("new/t", b"n")?;
                rep.evaluations += 1;
            }
            check(&mut src, &mut dst, rep)?;
            // the stalled subscribers wake up and get everything
            for (c, _) in stalled.iter_mut() {
                for (k, m) in sent.iter().enumerate() {
                    match c.recv(limit()) {
                        Ev::Pkt(p, _) if p.ty == PUBLISH && p.payload == *m => (),
                        e => {
                            return bad("a subscriber that resumes reading misses messages", format!("{}: message {k} of {} is {}; got {} stalled {kinds:?}", c.name, sent.len(), String::from_utf8_lossy(&m[..m.len().min(8)]), ev(&e)))
                        }
                    }
                }
                rep.count("backlog_messages_received", sent.len() as u64);
                match c.recv(Deadline::new(0.02)) {
                    Ev::Timeout => (),
                    e => return bad("a subscriber that resumes reading gets something twice", ev(&e)),
                }
            }
            drop(crowds);
            kinds.sort();
            kinds.dedup();
            rep.distinct.insert(fnv(format!("{kinds:?}{big}{small}{enc}").as_bytes()));
            rep.sample(format!("stalled {kinds:?}, backlog {big} large and {small} small messages"));
            b.check_panics()
        },
    );
    finish(rep)
}
