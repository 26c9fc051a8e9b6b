//! S08 (closed connections are forgotten), S09 (identifier takeover), S11 (shutdown).
use crate::cli::*;
use crate::env::*;
use crate::s_gate::{good_connect, unsupported_request, Obs};
use crate::s_hist::finish;
use crate::server::*;
use refmqtt::gen;
use refmqtt::rng::{fnv, Rng};
use refmqtt::wire::*;
use std::net::SocketAddr;
use std::time::Duration;

/// states of the broker's side of its connections: (client port, state), from /proc/net/tcp
fn sockets(a: SocketAddr) -> Vec<(u16, u8)> {
    let ip = match a.ip() {
        std::net::IpAddr::V4(v) => u32::from_le_bytes(v.octets()),
        _ => return vec![],
    };
    let want = format!("{:08X}:{:04X}", ip, a.port());
    let mut v = vec![];
    for l in std::fs::read_to_string("/proc/net/tcp").unwrap_or_default().lines().skip(1) {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() > 3 && f[1] == want {
            let port = u16::from_str_radix(f[2].rsplit(':').next().unwrap(), 16).unwrap();
            v.push((port, u8::from_str_radix(f[3], 16).unwrap()));
        }
    }
    v
}
/// identifiers may be long
fn pad(r: &mut Rng) -> String {
    if r.chance(3, 4) {
        return String::new();
    }
    let n = *r.pick(&[22usize, 23, 24, 63, 64, 127, 128, 199, 255, 256, 1000, 5000]);
    r.pick(&["x", "0", "é", "/"]).repeat(n)
}
pub fn s08() -> i32 {
    perturb(25, 100);
    perturb_long(150);
    let rep = episodes(
        "S08",
        "an ended connection is non-trivial by (listener, way of ending, what was in flight); distinct ones are counted",
        Plan::new(900, 20000).threads(8),
        |e, r, rep| {
            let b = Broker::start(Cfg::random(r))?;
            let mut o = Obs::new(&b, r)?;
            let mut names = vec![];
            let pad = pad(r);
            for k in 0..10 {
                let enc = crypt(r.chance(1, 3));
                let id = format!("m{pad}{}", k % 4);
                let p = good_connect(r, &id);
                let (mut c, _) = Cli::connect_with(&b, enc, &p)?;
                c.name = format!("{} enc {enc}", sshort(&id));
                c.announced = None;
                let tag = format!("s08/{k}");
                // fresh start: nothing of an earlier connection under this identifier is left
                o.publish("s08/old", b"old");
                for j in 0..k {
                    o.publish(&format!("s08/{j}"), b"old");
                }
                o.until_mark()?;
                let left = b.subscribers("s08/old", &[])?;
                if left.contains_key(&id) {
                    return bad("a new connection inherits subscriptions of an earlier one", format!("{} {left:?}", c.name));
                }
                let big = r.chance(1, 3) && p.prop(0x27).is_none();
                c.sub_ok(&[(&tag, OPT), ("s08/old", OPT), ("s08/+/#", OPT), ("#", OPT | NL), ("big/#", OPT)])?;
                // sometimes very many more
                let many = if r.chance(1, 8) { *r.pick(&[60usize, 101, 260, 1100]) } else { 0 };
                let more: Vec<String> = (0..many).map(|k| if k % 3 == 0 { format!("s08/many/{k}/#") } else { format!("s08m{k}/x") }).collect();
                for p in more.chunks(100) {
                    let p: Vec<(&str, u8)> = p.iter().map(|f| (f.as_str(), OPT)).collect();
                    c.sub_ok(&p)?;
                }
                if big {
                    // more than the socket takes: the broker is stuck writing when it ends
                    for _ in 0..100 {
                        o.publish("big/x", &r.bytes(50_000));
                    }
                    o.until_mark()?;
                }
                let way = r.below(10);
                let way_name = ["close", "reset", "half close", "DISCONNECT", "malformed packet", "mid-packet close", "SUBSCRIBE then close", "unsupported request", "burst then reset", "half close mid-packet"][way];
                let mut sub_frame = c.seal(&encode(&Pkt::subscribe(9, &[("s08/late", OPT), ("s08/old", OPT), ("#", OPT)])));
                let port = c.s.local_addr().unwrap().port();
                match way {
                    0 => drop(c),
                    1 => c.abort(),
                    2 => {
                        c.half_close();
                        c.expect_closed("after the client closed its side")?;
                    }
                    3 => {
                        let f = c.seal(&encode(&Pkt::new(DISCONNECT)));
                        c.send_raw(&f);
                        c.expect_closed("after a DISCONNECT")?;
                    }
                    4 => {
                        let junk = match r.below(3) {
                            0 => vec![0x00, 0x00],
                            1 => vec![0x36, 0x02, 0, 0],
                            _ => vec![0x82, 0xff, 0xff, 0xff, 0xff, 0x7f],
                        };
                        let f = if enc && r.chance(1, 2) { noise_frame(&r.bytes(40)) } else { c.seal(&junk) };
                        c.send_raw(&f);
                        c.expect_closed("after a malformed packet")?;
                    }
                    5 => {
                        let f = c.seal(&encode(&Pkt::publish("s08/x", &r.bytes(200))));
                        let n = r.range(1, f.len() - 1);
                        c.send_raw(&f[..n]);
                        drop(c);
                    }
                    6 => {
                        for _ in 0..r.below(4) {
                            let x = c.seal(&encode(&Pkt::subscribe(10, &[("s08/late", OPT), ("s08/old", OPT)])));
                            sub_frame.extend_from_slice(&x);
                        }
                        c.send_raw(&sub_frame);
                        if r.chance(1, 2) {
                            c.abort();
                        } else {
                            drop(c);
                        }
                    }
                    7 => {
                        let (p, _) = loop {
                            let x = unsupported_request(r, &id);
                            if x.0.ty != CONNECT {
                                break x;
                            }
                        };
                        let f = c.seal(&encode(&p));
                        c.send_raw(&f);
                        c.send_raw(&sub_frame);
                        c.expect_closed("after an unsupported request")?;
                    }
                    8 => {
                        let mut w = vec![];
                        for i in 0..60 {
                            let p = if i % 3 == 0 { Pkt::subscribe(11, &[("s08/late", OPT)]) } else { Pkt::publish("s08/burst", &r.bytes(100)) };
                            let f = c.seal(&encode(&p));
                            w.extend_from_slice(&f);
                        }
                        c.send_raw(&w);
                        c.abort();
                    }
                    _ => {
                        let f = c.seal(&encode(&Pkt::publish("s08/x", &r.bytes(200))));
                        let n = r.range(1, f.len() - 1);
                        c.send_raw(&f[..n]);
                        c.half_close();
                        c.expect_closed("after the client closed its side in the middle of a packet")?;
                    }
                }
                let ctx = format!("{} enc {enc} ended by {way_name}, backlog {big}, {many} more filters, cfg {:?}", sshort(&id), b.cfg);
                if !wait(limit(), || matches!(b.has_client(&id), Ok(false))) {
                    return bad("a client whose connection ended stays registered", format!("{ctx}\nclients {:?} panics {:?}", b.clients()?, b.panics()));
                }
                // the next connection under the same identifier comes at once: the end of the one
                // before has no more to do with it
                if r.chance(1, 3) {
                    let mut n = Cli::connect(&b, r.chance(1, 3), &id)?;
                    n.sub_ok(&[("s08/now/+", OPT)])?;
                    for i in 0..4 {
                        let t = format!("s08/now/{i}");
                        n.publish(&t, b"now");
                        n.expect_pub(&t, b"now").map_err(|x| Bad {
                            what: "the end of a connection disturbs the next one under the same identifier".into(),
                            detail: format!("{}\n{ctx}", x.detail),
                        })?;
                        std::thread::sleep(Duration::from_micros(1500));
                    }
                    drop(n);
                    rep.count("rejoined_at_once", 1);
                    if !wait(limit(), || matches!(b.has_client(&id), Ok(false))) {
                        return bad("a client whose connection ended stays registered", format!("rejoined; {ctx}"));
                    }
                }
                // everything it had sent is through the dispatcher now; nothing of it may stay
                o.until_mark()?;
                let forgot = |t: &str| matches!(b.subscribers(t, &[]), Ok(s) if !s.contains_key(&id));
                let mut topics = vec![tag.as_str(), "s08/old", "s08/late", "anything", "big/x"];
                let more: Vec<String> = more.iter().map(|f| f.replace("/#", "/z")).collect();
                for _ in 0..many.min(12) {
                    topics.push(r.pick(&more));
                }
                if !wait(Deadline::new(2.0), || topics.iter().all(|t| forgot(t))) {
                    return bad("subscriptions of a closed connection stay", format!("{ctx}\n{:?}", topics.iter().map(|t| (t, b.subscribers(t, &[]).ok())).collect::<Vec<_>>()));
                }
                let addr = if enc { b.noise } else { b.mqtt };
                if !wait(limit(), || !sockets(addr).iter().any(|s| s.0 == port && matches!(s.1, 1 | 8))) {
                    return bad("the broker does not close its side of an ended connection", format!("{ctx}\nsockets (port, state) {:?}", sockets(addr)));
                }
                names.push(way_name);
                rep.evaluations += 1;
                rep.count(&format!("ended by {way_name}"), 1);
                rep.distinct.insert(fnv(format!("{enc}{way_name}{big}{}", b.cfg.queue).as_bytes()));
                // sometimes the next connection comes under the same identifier at once
                if r.chance(1, 3) {
                    let mut c = Cli::connect(&b, r.chance(1, 3), &id)?;
                    for t in &topics {
                        o.publish(t, b"for the old one");
                    }
                    o.until_mark()?;
                    c.sub_ok(&[("s08/fresh", OPT)])?;
                    c.publish("s08/fresh", b"f");
                    c.expect_pub("s08/fresh", b"f")
                        .map_err(|x| Bad { what: "a new connection receives what it has not subscribed to".into(), detail: format!("{}\n{ctx}", x.detail) })?;
                    drop(c);
                    wait(limit(), || matches!(b.has_client(&id), Ok(false)));
                }
            }
            // no processing is spent on the ended ones
            if e % 5 == 0 {
                let mut busy = 0;
                for _ in 0..6 {
                    let (c0, t0) = (b.cpu(), std::time::Instant::now());
                    std::thread::sleep(Duration::from_millis(120));
                    if b.cpu() - c0 >= t0.elapsed() / 5 {
                        busy += 1;
                    } else {
                        break;
                    }
                }
                if busy == 6 {
                    return bad("the broker keeps spending processing time on ended connections", format!("ways {names:?}"));
                }
                rep.count("idle_checks", 1);
            }
            b.check_panics()
        },
    );
    finish(rep)
}

pub fn s09() -> i32 {
    perturb(30, 120);
    // the floods of this check take too long otherwise
    perturb_long(0);
    let rep = episodes(
        "S09",
        "a takeover is non-trivial by (listeners of old and new, what the old connection was doing, how many came at once); distinct ones are counted",
        Plan::new(1000, 25000).threads(8),
        |_, r, rep| {
            let b = Broker::start(Cfg::random(r))?;
            let mut o = Obs::new(&b, r)?;
            for round in 0..6 {
                if r.chance(1, 3) {
                    storm(&b, &mut o, r, rep, round)?;
                } else if r.chance(1, 3) {
                    handover(&b, &mut o, r, rep, round)?;
                } else {
                    chain(&b, &mut o, r, rep, round)?;
                }
            }
            b.check_panics()
        },
    );
    finish(rep)
}
/// one after the other
fn chain(b: &Broker, o: &mut Obs, r: &mut Rng, rep: &mut refmqtt::report::Report, round: usize) -> Res<()> {
    let id = format!("{}id{round}", pad(r));
    // others whose identifiers are almost the same
    let mut twins = vec![];
    if r.chance(1, 2) {
        let mut names = vec![format!("{id}0"), format!("{id} "), id[..id.len() - 1].to_string(), id.to_uppercase(), format!("{}9", &id[..id.len() - 1]), id.replace("id", "di"), format!("$share/{id}"), format!("/{id}")];
        names.sort();
        names.dedup();
        names.retain(|n| *n != id);
        r.shuffle(&mut names);
        for (k, n) in names.iter().take(3).enumerate() {
            let mut c = Cli::connect(b, r.chance(1, 3), n)?;
            c.name = format!("{} beside {}", sshort(n), sshort(&id));
            c.sub_ok(&[(&format!("twin/{k}"), OPT), ("twin/#", OPT)])?;
            twins.push((c, n.clone()));
        }
    }
    let mut old: Option<(Cli, usize)> = None;
    for gen in 0..r.range(2, 4) {
        let enc = crypt(r.chance(1, 2));
        let mut c = Cli::connect(b, enc, &id)?;
        c.name = format!("{} generation {gen} enc {enc}", sshort(&id));
        let ctx = format!("{}; broker {:?}", c.name, b.cfg);
        // a message right after the CONNACK on what only the old one has subscribed to
        o.publish("tk/old", b"after");
        o.until_mark()?;
        if let Some((mut x, doing)) = old.take() {
            let before = match x.expect_closed("although its identifier was taken over") {
                Ok(v) => v,
                Err(e) => return bad(e.what, format!("{} (doing {doing})\n{ctx}", e.detail)),
            };
            if before.iter().any(|p| p.ty == PUBLISH && p.payload == b"after") {
                return bad("the older connection still receives messages after the newer one's CONNACK", format!("{}\n{ctx}", x.name));
            }
            drop(x);
            rep.evaluations += 1;
            rep.count("takeovers", 1);
            rep.distinct.insert(fnv(format!("{enc}{doing}{gen}{}", b.cfg.queue).as_bytes()));
        }
        // gone for good: its end must not touch the new one
        o.until_mark()?;
        for t in ["tk/old", "tk/late"] {
            if b.subscribers(t, &[])?.contains_key(&id) {
                return bad("the newer connection inherits subscriptions of the older one", format!("{t}: {:?}\n{ctx}", b.subscribers(t, &[])?));
            }
        }
        let t = format!("tk/{round}/{gen}");
        c.sub_ok(&[(&t, OPT)])?;
        for k in 0..3 {
            let m = format!("n{k}");
            o.publish(&t, m.as_bytes());
            c.expect_pub(&t, m.as_bytes()).map_err(|x| Bad { what: "the newer connection is not served".into(), detail: format!("{}\n{ctx}", x.detail) })?;
            o.until_mark()?;
        }
        if b.clients()?.iter().filter(|c| **c == id).count() != 1 {
            return bad("the newer connection is not registered", format!("{:?}\n{ctx}", b.clients()?));
        }
        // now it becomes the old one, busy with something
        c.sub_ok(&[("tk/old", OPT), ("tk/flood", OPT)])?;
        let doing = r.below(7);
        match doing {
            1 => {
                for _ in 0..120 {
                    o.publish("tk/flood", &r.bytes(50_000));
                }
                o.until_mark()?;
            }
            2 => {
                let f = c.seal(&encode(&Pkt::publish("tk/part", &r.bytes(300))));
                let n = r.range(1, f.len() - 1);
                c.send_raw(&f[..n]);
            }
            3 => {
                let mut w = vec![];
                for _ in 0..r.range(1, 30) {
                    let f = c.seal(&encode(&Pkt::subscribe(8, &[("tk/late", OPT), ("tk/old", OPT)])));
                    w.extend_from_slice(&f);
                }
                c.send_raw(&w);
            }
            4 => {
                c.half_close();
            }
            // requests that end the connection, more than are processed before the takeover
            5 => {
                let mut w = vec![];
                for i in 0..r.range(1, 60) {
                    let mut p = unsupported_request(r, &id).0;
                    if i < 20 && r.chance(1, 2) {
                        p = Pkt::publish("tk/part", b"x");
                    }
                    let f = c.seal(&encode(&p));
                    w.extend_from_slice(&f);
                }
                c.send_raw(&w);
            }
            _ => (),
        }
        old = Some((c, doing));
    }
    let (c, _) = old.unwrap();
    drop(c);
    if !wait(limit(), || matches!(b.has_client(&id), Ok(false))) {
        return bad("a client whose connection ended stays registered", format!("{} after takeovers", sshort(&id)));
    }
    o.until_mark()?;
    for (k, (c, n)) in twins.iter_mut().enumerate() {
        let (t, m) = (format!("twin/{k}"), format!("{round}/{k}"));
        c.publish(&t, m.as_bytes());
        let other = |x: Bad| Bad { what: "a takeover disturbs a client with another identifier".into(), detail: x.detail };
        loop {
            match c.recv(limit()) {
                Ev::Pkt(p, _) if p.ty == PUBLISH && p.payload == m.as_bytes() => break,
                Ev::Pkt(p, _) if p.ty == PUBLISH && p.topic.starts_with("twin/") => (),
                e => return Err(other(Bad { what: String::new(), detail: format!("{}: {}", c.name, ev(&e)) })),
            }
        }
        if !b.has_client(n)? {
            return Err(other(Bad { what: String::new(), detail: format!("{} is not registered any more", c.name) }));
        }
    }
    rep.count("twins", twins.len() as u64);
    for (c, n) in twins {
        drop(c);
        wait(limit(), || matches!(b.has_client(&n), Ok(false)));
    }
    Ok(())
}
/// takeovers while messages for the older connection keep coming in
fn handover(b: &Broker, o: &mut Obs, r: &mut Rng, rep: &mut refmqtt::report::Report, round: usize) -> Res<()> {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    let id = format!("hand{}{round}", pad(r));
    let topic = *r.pick(&["ho/x", "ho/x/y/z/y/x", "ho", "ho//x"]);
    let filters = ["#", "ho/#", "ho/+", topic];
    let stop = AtomicBool::new(false);
    // what each source has sent, at most
    let sent: Vec<AtomicU64> = (0..r.range(1, 3)).map(|_| AtomicU64::new(0)).collect();
    let mut srcs = vec![];
    for k in 0..sent.len() {
        srcs.push((k, Cli::connect(b, r.chance(1, 3), &format!("src{k}"))?, r.below(300) as u64));
    }
    let res = std::thread::scope(|s| {
        let (stop, sent) = (&stop, &sent);
        for (k, mut c, pause) in srcs.drain(..) {
            s.spawn(move || {
                while !stop.load(SeqCst) {
                    let i = sent[k].fetch_add(1, SeqCst);
                    if !c.publish(topic, format!("{k} {i}").as_bytes()) {
                        break;
                    }
                    if pause > 0 {
                        std::thread::sleep(Duration::from_micros(pause));
                    }
                }
            });
        }
        let run = || -> Res<()> {
            let mut old: Option<Cli> = None;
            for gen in 0..r.range(6, 16) {
                let enc = crypt(r.chance(1, 3));
                let mut c = Cli::connect(b, enc, &id)?;
                c.name = format!("{} generation {gen} enc {enc}", sshort(&id));
                let ctx = format!("{}; {} sources to {topic:?}; broker {:?}", c.name, sent.len(), b.cfg);
                let mark: Vec<u64> = sent.iter().map(|x| x.load(SeqCst)).collect();
                match c.recv(Deadline::new(r.below(4) as f64 / 1000.0)) {
                    Ev::Timeout => (),
                    Ev::Pkt(p, _) if p.ty == PUBLISH => return bad("the newer connection inherits subscriptions of the older one", format!("receives {} {:?}\n{ctx}", short(&p), String::from_utf8_lossy(&p.payload))),
                    e => return bad("the newer connection is not served", format!("{}\n{ctx}", ev(&e))),
                }
                if let Some(mut x) = old.take() {
                    for p in x.expect_closed("although its identifier was taken over")? {
                        if p.ty != PUBLISH {
                            continue;
                        }
                        let t = String::from_utf8_lossy(&p.payload).to_string();
                        let v: Vec<u64> = t.split(' ').filter_map(|x| x.parse().ok()).collect();
                        if v.len() == 2 && v[1] >= mark[v[0] as usize] {
                            return bad("the older connection still receives messages after the newer one's CONNACK", format!("{t} {mark:?}\n{ctx}"));
                        }
                    }
                    rep.evaluations += 1;
                    rep.count("takeovers under way", 1);
                    rep.distinct.insert(fnv(format!("ho{enc}{}{topic}{}", x.enc, b.cfg.queue).as_bytes()));
                }
                let f = *r.pick(&filters);
                let f = if f == "ho/+" && topic != "ho/x" { topic } else { f };
                let (codes, first) = c.subscribe(7, &[(f, OPT)])?;
                if codes != [0] {
                    return bad("a supported SUBSCRIBE is refused", format!("{f} {codes:?}\n{ctx}"));
                }
                if first.is_empty() {
                    match c.recv(limit()) {
                        Ev::Pkt(p, _) if p.ty == PUBLISH => (),
                        e => return bad("the newer connection is not served", format!("{}\n{ctx}", ev(&e))),
                    }
                }
                old = Some(c);
            }
            Ok(())
        };
        let mut run = run;
        let res = run();
        stop.store(true, SeqCst);
        res
    });
    res?;
    o.until_mark()?;
    for n in ["src0", "src1", "src2", &id] {
        if !wait(limit(), || matches!(b.has_client(n), Ok(false))) {
            return bad("a client whose connection ended stays registered", n.to_string());
        }
    }
    Ok(())
}
/// many at once: one survives
fn storm(b: &Broker, o: &mut Obs, r: &mut Rng, rep: &mut refmqtt::report::Report, round: usize) -> Res<()> {
    let id = format!("storm{}{round}", pad(r));
    let n = r.range(2, 8);
    let encs: Vec<bool> = (0..n).map(|_| crypt(r.chance(1, 3))).collect();
    let gate = std::sync::Barrier::new(n);
    let cs: Vec<Res<Cli>> = std::thread::scope(|s| {
        let (gate, id) = (&gate, &id);
        encs.iter()
            .map(|e| {
                s.spawn(move || {
                    let c = Cli::open(b, *e, id);
                    gate.wait();
                    let mut c = c?;
                    c.send(&Pkt::connect(id, 60));
                    match c.recv(limit()) {
                        Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => Ok(c),
                        // taken over before it heard of its own success
                        Ev::Closed => {
                            c.closed = true;
                            Ok(c)
                        }
                        e => bad("a supported CONNECT is not answered with a success CONNACK", ev(&e)),
                    }
                })
            })
            .collect::<Vec<_>>()
            .into_iter()
            .map(|h| h.join().unwrap())
            .collect()
    });
    let mut live = vec![];
    for c in cs {
        live.push(c?);
    }
    let ctx = format!("{n} connections {encs:?} under {id:?} at once; broker {:?}", b.cfg);
    let d = limit();
    loop {
        let mut next = vec![];
        for mut c in live {
            match c.recv(Deadline::new(0.0)) {
                Ev::Closed => (),
                Ev::Timeout => next.push(c),
                Ev::Pkt(p, _) if p.ty == DISCONNECT => next.push(c),
                e => return bad("a connection under a contested identifier receives something", format!("{}\n{ctx}", ev(&e))),
            }
        }
        live = next;
        if live.len() <= 1 {
            break;
        }
        if d.over() {
            return bad("several connections with one identifier stay open", format!("{} of {ctx}", live.len()));
        }
    }
    if live.is_empty() {
        return bad("no connection is left of those that connected at once", ctx);
    }
    let mut c = live.pop().unwrap();
    o.until_mark()?;
    let t = format!("storm/{round}");
    for k in 0..4 {
        c.sub_ok(&[(&t, OPT)]).map_err(|x| Bad { what: "the surviving connection is not served".into(), detail: format!("{}\n{ctx}", x.detail) })?;
        let m = format!("s{k}");
        o.publish(&t, m.as_bytes());
        c.expect_pub(&t, m.as_bytes()).map_err(|x| Bad { what: "the surviving connection is not served".into(), detail: format!("{}\n{ctx}", x.detail) })?;
        o.until_mark()?;
    }
    if b.clients()?.iter().filter(|c| **c == id).count() != 1 {
        return bad("the surviving connection is not registered", format!("{:?}\n{ctx}", b.clients()?));
    }
    rep.evaluations += 1;
    rep.count("storms", 1);
    rep.distinct.insert(fnv(format!("storm{encs:?}{}", b.cfg.queue).as_bytes()));
    drop(c);
    if !wait(limit(), || matches!(b.has_client(&id), Ok(false))) {
        return bad("a client whose connection ended stays registered", format!("{ctx}; {:?}", b.clients()?));
    }
    Ok(())
}

pub fn s11() -> i32 {
    perturb(25, 100);
    let rep = episodes(
        "S11",
        "a shutdown is non-trivial by the multiset of states its clients are in; distinct ones are counted",
        Plan::new(8000, 200000).threads(8),
        |_, r, rep| {
            let mut b = Broker::start(Cfg::random(r))?;
            let mut open: Vec<Cli> = vec![];
            let mut kinds = vec![];
            let n = *r.pick(&[0usize, 1, 2, 5, 9, 20]);
            for i in 0..n {
                let enc = crypt(r.chance(1, 2));
                let k = r.below(9);
                kinds.push((enc, k));
                let mut c = match k {
                    0 => Cli::open_raw(&b, enc, "silent")?,
                    1 if enc => {
                        let mut c = Cli::open_raw(&b, true, "mid-handshake")?;
                        let bld = snow::Builder::new(NOISE.parse().unwrap());
                        let kp = bld.generate_keypair().unwrap();
                        let mut hs = bld.local_private_key(&kp.private).remote_public_key(&keys().1).build_initiator().unwrap();
                        let mut buf = [0u8; 300];
                        let n = hs.write_message(&[], &mut buf).unwrap();
                        c.send_raw(&noise_frame(&buf[..n]));
                        c
                    }
                    1 | 2 => {
                        let mut c = Cli::open(&b, enc, "partial connect")?;
                        let w = c.seal(&encode(&Pkt::connect("part", 60)));
                        let n = r.range(0, w.len() - 1);
                        c.send_raw(&w[..n]);
                        c
                    }
                    3 => {
                        let mut c = Cli::open(&b, enc, "just connecting")?;
                        c.send(&Pkt::connect(&format!("c{i}"), 60));
                        c
                    }
                    4 => {
                        let mut c = Cli::connect(&b, enc, &format!("c{i}"))?;
                        let w = c.seal(&encode(&Pkt::publish("sd/x", &r.bytes(300))));
                        let n = r.range(1, w.len() - 1);
                        c.send_raw(&w[..n]);
                        c
                    }
                    _ => {
                        let mut c = Cli::connect(&b, enc, &format!("c{i}"))?;
                        c.sub_ok(&[("sd/#", OPT)])?;
                        c
                    }
                };
                c.name = format!("{} #{i} kind {k} enc {enc}", c.name);
                open.push(c);
            }
            // floods: a sender that never reads, filling queues and sockets
            let floods = r.below(3);
            for i in 0..floods {
                let mut c = Cli::connect(&b, r.chance(1, 3), &format!("flood{i}"))?;
                c.name = format!("flood{i}");
                if r.chance(1, 2) {
                    c.sub_ok(&[("sd/#", OPT)])?;
                }
                let m = r.bytes(20_000);
                let mut w = vec![];
                for _ in 0..r.range(1, 100) {
                    let f = c.seal(&encode(&Pkt::publish("sd/flood", &m)));
                    w.extend_from_slice(&f);
                }
                c.send_for(&w, 0.15);
                open.push(c);
            }
            kinds.sort();
            let ctx = format!("clients (encrypted, kind) {kinds:?}, {floods} flooding; {:?}", b.cfg);
            if r.chance(1, 2) {
                std::thread::sleep(Duration::from_micros(r.below(4000) as u64));
            }
            // connections arriving while it shuts down
            let late = r.below(4);
            let (mqtt, noise) = (b.mqtt, b.noise);
            let h = std::thread::spawn(move || {
                (0..late)
                    .filter_map(|i| {
                        std::thread::sleep(Duration::from_micros(200 * i as u64));
                        let a = if i % 2 == 0 { mqtt } else { noise };
                        std::net::TcpStream::connect_timeout(&a, Duration::from_millis(300)).ok()
                    })
                    .collect::<Vec<_>>()
            });
            if !b.shutdown(limit()) {
                return bad("a shutdown does not finish", format!("{ctx}\npanics {:?}", b.panics()));
            }
            let racers = h.join().unwrap();
            for c in open.iter_mut() {
                // what was under way may still arrive, but then the connection ends
                c.expect_end("by the shutdown").map_err(|x| Bad { what: "a client connection is not closed by the shutdown".into(), detail: format!("{}\n{ctx}", x.detail) })?;
            }
            for s in racers {
                let mut s = s;
                let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
                let _ = std::io::Write::write_all(&mut s, &encode(&Pkt::connect("racer", 60)));
                let d = limit();
                let mut buf = [0u8; 64];
                loop {
                    match std::io::Read::read(&mut s, &mut buf) {
                        Ok(0) => break,
                        Ok(_) => return bad("a connection is served after the shutdown", ctx),
                        Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                            if d.over() {
                                return bad("a connection made during the shutdown stays open", ctx);
                            }
                        }
                        Err(_) => break,
                    }
                }
            }
            for a in [b.mqtt, b.noise] {
                if let Ok(mut s) = std::net::TcpStream::connect_timeout(&a, Duration::from_millis(300)) {
                    let _ = s.set_read_timeout(Some(Duration::from_millis(500)));
                    let _ = std::io::Write::write_all(&mut s, &encode(&Pkt::connect("after", 60)));
                    let mut buf = [0u8; 64];
                    if let Ok(n) = std::io::Read::read(&mut s, &mut buf) {
                        if n > 0 {
                            return bad("a connection is served after the shutdown", format!("{ctx}\n{:02x?}", &buf[..n]));
                        }
                    }
                }
            }
            rep.evaluations += 1;
            rep.count("shutdowns", 1);
            rep.count("connections_closed", open.len() as u64);
            rep.distinct.insert(fnv(format!("{kinds:?}{floods}").as_bytes()));
            rep.sample(ctx);
            b.check_panics()
        },
    );
    let _ = gen::pid;
    finish(rep)
}
