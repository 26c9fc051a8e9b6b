//! S05 (only a supported CONNECT opens the gate), S06 (truthful CONNACK), S12 (unsupported requests),
//! S18 (connections that never finish connecting).
use crate::cli::*;
use crate::env::*;
use crate::s_hist::finish;
use crate::server::*;
use refmqtt::gen;
use refmqtt::mutate;
use refmqtt::rng::{fnv, Rng};
use refmqtt::wire::*;
use std::collections::HashSet;
use std::time::Duration;

/// Bystanders: a subscriber to everything and a publisher whose marks delimit what happened.
pub struct Obs {
    pub sub: Cli,
    pub src: Cli,
    n: u32,
}
impl Obs {
    pub fn new(b: &Broker, r: &mut Rng) -> Res<Obs> {
        let mut sub = Cli::connect(b, r.chance(1, 3), "obs-sub")?;
        sub.name = "observer".into();
        sub.sub_ok(&[("#", OPT), ("$SYS/#", OPT)])?;
        let src = Cli::connect(b, if b.cfg.strict { sub.enc } else { r.chance(1, 3) }, "obs-src")?;
        Ok(Obs { sub, src, n: 0 })
    }
    pub fn publish(&mut self, topic: &str, m: &[u8]) {
        self.src.publish(topic, m);
    }
    /// everything the observer received up to a fresh mark
    pub fn until_mark(&mut self) -> Res<Vec<Pkt>> {
        self.n += 1;
        let m = format!("mark{}", self.n);
        self.src.publish("obs/mark", m.as_bytes());
        let mut v = vec![];
        loop {
            match self.sub.recv(limit()) {
                Ev::Pkt(p, _) if p.ty == PUBLISH && p.topic == "obs/mark" && p.payload == m.as_bytes() => return Ok(v),
                Ev::Pkt(p, _) => v.push(p),
                e => return bad("another client is not served any more", format!("observer waiting for its mark: {}; before {:?}", ev(&e), v.iter().map(short).collect::<Vec<_>>())),
            }
        }
    }
    /// nothing but the mark may have come
    pub fn quiet(&mut self, what: &str, ctx: &str) -> Res<()> {
        let v = self.until_mark()?;
        match v.first() {
            None => Ok(()),
            Some(p) => bad(what, format!("observer received {}\n{ctx}", short(p))),
        }
    }
}
pub fn gcfg() -> gen::Cfg {
    gen::Cfg { user_pair: false, big: 0 }
}
/// a CONNECT the broker supports, with arbitrary supported properties
pub fn good_connect(r: &mut Rng, id: &str) -> Pkt {
    let mut p = Pkt::connect(id, *r.pick(&[0u16, 1, 10, 60, 65535]));
    if r.chance(2, 3) {
        for x in [0x11u8, 0x21, 0x22, 0x17, 0x19] {
            if r.chance(1, 3) {
                p.props.push((x, gen::value(r, x, gcfg())));
            }
        }
        if r.chance(1, 4) {
            p.props.push((0x27, V::U32(*r.pick(&[150u32, 500, 65535, 70_000, 0x0100_0000, 0xffff_ffff]))));
        }
        let n = if r.chance(1, 25) { r.range(5, 300) } else { r.below(3) };
        for _ in 0..n {
            p.props.push((0x26, V::S(gen::gstr(r, 10))));
        }
        if n < 5 && r.chance(1, 6) {
            let l = r.range(30, 200);
            p.props.push((0x26, V::S(gen::gstr_len(r, l))));
        }
        r.shuffle(&mut p.props);
    }
    p
}
/// make a supported CONNECT unsupported; the name of what was asked for
pub fn unsupported_connect(r: &mut Rng, p: &mut Pkt) -> &'static str {
    let k = r.below(8);
    match k {
        0 => {
            p.flags |= 0x80;
            p.username = Some(gen::field_str(r, gcfg()));
            "user name"
        }
        1 => {
            p.flags |= 0xc0;
            p.username = Some(if r.chance(1, 2) { String::new() } else { gen::field_str(r, gcfg()) });
            let n = r.below(5);
            p.password = Some(r.bytes(n));
            "user name and password"
        }
        2 => {
            p.flags |= 0x40;
            let n = r.below(9);
            p.password = Some(r.bytes(n));
            "password"
        }
        3 => {
            p.flags = p.flags & !0x38 | 4 | ((r.below(3) as u8) << 3) | if r.chance(1, 2) { 0x20 } else { 0 };
            let n = r.below(9);
            p.will = Some(Will { props: gen::props(r, WILL, gcfg()), topic: if r.chance(1, 2) { "gate/will".into() } else { gen::topic(r, gcfg()) }, payload: r.bytes(n) });
            "will"
        }
        4 => {
            p.flags &= !2;
            "resuming a session"
        }
        5 => {
            let at = r.below(p.props.len() + 1);
            p.props.insert(at, (0x15, V::S(gen::field_str(r, gcfg()))));
            "authentication method"
        }
        6 => {
            let at = r.below(p.props.len() + 1);
            let n = r.below(5);
            p.props.insert(at, (0x16, V::B(r.bytes(n))));
            "authentication data"
        }
        _ => {
            let at = r.below(p.props.len() + 1);
            p.props.insert(at, (0x15, V::S("SCRAM".into())));
            let n = r.below(9);
            let at = r.below(p.props.len() + 1);
            p.props.insert(at, (0x16, V::B(r.bytes(n))));
            "authentication method and data"
        }
    }
}
fn followers(r: &mut Rng) -> Vec<Pkt> {
    (0..r.below(4))
        .map(|_| match r.below(3) {
            0 => Pkt::subscribe(7, &[("#", OPT), ("gate/x", OPT)]),
            1 => Pkt::publish("gate/x", b"leak"),
            _ => Pkt::connect("sneaky", 60),
        })
        .collect()
}
pub fn s05() -> i32 {
    perturb(15, 60);
    let rep = episodes(
        "S05",
        "an attempt is non-trivial by (listener, kind of first packet or unsupported request, what is pipelined behind it, identifier in use or not); distinct ones are counted",
        Plan::new(3000, 60000),
        |_, r, rep| {
            let b = Broker::start(Cfg::random(r))?;
            let mut o = Obs::new(&b, r)?;
            let mut victim = Cli::connect(&b, r.chance(1, 3), "victim")?;
            victim.name = "victim".into();
            victim.sub_ok(&[("v/t", OPT)])?;
            for k in 0..14 {
                let enc = crypt(r.chance(1, 3));
                let id = match r.below(4) {
                    0 => "victim".to_string(),
                    1 => String::new(),
                    _ => format!("gate{k}"),
                };
                let mut c = Cli::open(&b, enc, &format!("attempt {k} enc {enc}"))?;
                let f = followers(r);
                let case = r.below(5);
                let mut kind = String::new();
                let mut first = vec![];
                let mut unsupported = false;
                let mut malformed = false;
                match case {
                    0 | 1 => {
                        // some other packet first
                        let ty = *r.pick(&[2u8, 3, 3, 3, 4, 5, 6, 7, 8, 8, 8, 9, 10, 11, 12, 13, 14, 15]);
                        let p = match ty {
                            3 if r.chance(1, 2) => Pkt::publish("gate/x", b"leak"),
                            8 if r.chance(1, 2) => Pkt::subscribe(5, &[("#", OPT), ("gate/x", OPT)]),
                            _ => gen::packet(r, ty, gcfg()),
                        };
                        kind = format!("type {ty}");
                        first = encode(&p);
                    }
                    2 => {
                        // a CONNECT that is none
                        for _ in 0..50 {
                            let p = good_connect(r, &id);
                            let (m, name) = mutate::mutant(r, &p);
                            if let Dec::Bad(..) = decode(&m, DIALECT) {
                                if let Dec::Bad(..) = decode(&m, SPEC) {
                                    kind = format!("malformed {name}");
                                    first = m;
                                    malformed = true;
                                    break;
                                }
                            }
                        }
                    }
                    _ => {
                        let mut p = good_connect(r, &id);
                        kind = unsupported_connect(r, &mut p).to_string();
                        if r.chance(1, 5) {
                            kind = format!("{kind} and {}", unsupported_connect(r, &mut p));
                        }
                        if [0x15, 0x16].iter().any(|id| p.props.iter().filter(|x| x.0 == *id).count() > 1) {
                            continue;
                        }
                        first = encode(&p);
                        unsupported = true;
                    }
                }
                if first.is_empty() || first.len() > 60_000 {
                    continue;
                }
                let ctx = format!("listener enc {enc}, first packet {kind}, identifier {id:?}, pipelined {:?}, first bytes {}", f.iter().map(short).collect::<Vec<_>>(), refmqtt::report::hexs(&first));
                let mut w = c.seal(&first);
                for p in &f {
                    let x = c.seal(&encode(p));
                    w.extend_from_slice(&x);
                }
                if r.chance(1, 4) {
                    // while it hesitates nothing reaches it
                    let at = r.range(1, w.len() - 1);
                    c.send_raw(&w[..at.min(first.len() - 1).max(1)]);
                    o.publish("gate/x", b"early");
                    let v = o.until_mark()?;
                    if v.len() != 1 {
                        return bad("a connection has an effect before its CONNECT", format!("observer got {:?}\n{ctx}", v.iter().map(short).collect::<Vec<_>>()));
                    }
                    w.drain(..at.min(first.len() - 1).max(1));
                }
                let seg = *r.pick(&[Seg::Whole, Seg::Whole, Seg::Random]);
                c.send_seg(&w, seg, r);
                let got = match c.expect_closed("after a first packet that is no supported CONNECT") {
                    Ok(g) => g,
                    Err(x) => return bad(x.what, format!("{}\n{ctx}", x.detail)),
                };
                let fine = if unsupported {
                    got.len() == 1 && got[0].ty == CONNACK && got[0].reason >= 0x80
                } else {
                    got.is_empty() || (malformed && got.len() == 1 && got[0].ty == CONNACK && got[0].reason >= 0x80)
                };
                if !fine {
                    let what = if unsupported { "an unsupported CONNECT is not answered with exactly one failure CONNACK" } else { "a connection that sent no CONNECT is answered" };
                    return bad(what, format!("got {:?}\n{ctx}", got.iter().map(short).collect::<Vec<_>>()));
                }
                o.quiet("a connection that was not accepted has an effect", &ctx)?;
                let mut names = b.clients()?;
                names.sort();
                if names != ["obs-src", "obs-sub", "victim"] {
                    return bad("a connection that was not accepted is registered", format!("clients {names:?}\n{ctx}"));
                }
                let s = b.subscribers("gate/x", &["obs-sub"])?;
                if s.len() != 1 {
                    return bad("a connection that was not accepted has a subscription", format!("{s:?}\n{ctx}"));
                }
                o.publish("v/t", b"still here");
                victim.expect_pub("v/t", b"still here").map_err(|x| Bad { what: "a refused CONNECT disturbs the client of that name".into(), detail: format!("{}\n{ctx}", x.detail) })?;
                o.until_mark()?;
                rep.evaluations += 1;
                rep.count(if unsupported { "refused_connects" } else { "closed_without_connect" }, 1);
                rep.distinct.insert(fnv(format!("{enc}{kind}{:?}{}", f.iter().map(|p| p.ty).collect::<Vec<_>>(), id == "victim").as_bytes()));
                rep.sample(ctx.chars().take(160).collect::<String>());
            }
            // a supported CONNECT still works
            let mut c = Cli::connect(&b, r.chance(1, 2), "fine")?;
            c.sub_ok(&[("fine/t", OPT)])?;
            c.publish("fine/t", b"1");
            c.expect_pub("fine/t", b"1")?;
            b.check_panics()
        },
    );
    finish(rep)
}

pub fn check_connack(b: &Broker, p: &Pkt, k: &Pkt, enc: bool) -> Res<String> {
    let ctx = format!("listener enc {enc} cfg {:?}\nCONNECT {p:?}\nCONNACK {k:?}", b.cfg);
    let u8p = |id| match k.prop(id) {
        Some(V::U8(x)) => Some(*x),
        _ => None,
    };
    let u16p = |q: &Pkt, id| match q.prop(id) {
        Some(V::U16(x)) => Some(*x),
        _ => None,
    };
    let u32p = |q: &Pkt, id| match q.prop(id) {
        Some(V::U32(x)) => Some(*x),
        _ => None,
    };
    if k.flags != 0 {
        return bad("a CONNACK claims a session", ctx);
    }
    let se = u32p(p, 0x11).unwrap_or(0);
    if u32p(k, 0x11).unwrap_or(se) != se {
        return bad("the CONNACK grants another session expiry than asked for", ctx);
    }
    if u16p(k, 0x21).unwrap_or(65535) != u16p(p, 0x21).unwrap_or(65535) {
        return bad("the CONNACK does not echo the receive maximum", ctx);
    }
    if u16p(k, 0x13).unwrap_or(p.keep_alive) != b.cfg.keep_alive {
        return bad("the CONNACK does not announce the configured keep alive", ctx);
    }
    if u8p(0x24) != Some(0) {
        return bad("the CONNACK does not announce maximum QoS 0", ctx);
    }
    if u8p(0x25) != Some(0) {
        return bad("the CONNACK does not announce that messages are not retained", ctx);
    }
    if u16p(k, 0x22).unwrap_or(0) != 0 {
        return bad("the CONNACK announces topic aliases", ctx);
    }
    if u8p(0x28).unwrap_or(1) != 1 {
        return bad("the CONNACK denies wildcard subscriptions", ctx);
    }
    if u8p(0x29) != Some(0) {
        return bad("the CONNACK does not deny subscription identifiers", ctx);
    }
    if u8p(0x2a) != Some(0) {
        return bad("the CONNACK does not deny shared subscriptions", ctx);
    }
    let max = if enc { b.cfg.max.min(65519) } else { b.cfg.max };
    if u32p(k, 0x27) != Some(max) {
        return bad("the CONNACK does not announce the maximum packet size", ctx);
    }
    match (k.prop(0x12), p.client_id.is_empty()) {
        (None, false) => Ok(p.client_id.clone()),
        (Some(V::S(s)), true) if !s.is_empty() => Ok(s.clone()),
        _ => bad("the assigned client identifier is wrong", ctx),
    }
}
/// thousands of clients without an identifier at the same time
fn crowd(r: &mut Rng, rep: &mut refmqtt::report::Report) -> Res<()> {
    // one at a time
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let mut lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim);
    }
    // two descriptors each, the other episodes need some too
    let n = ((lim.rlim_cur.saturating_sub(4000) / 2) as usize).min(6500);
    let b = Broker::start(Cfg { keep_alive: 60, ..Cfg::default() })?;
    let mut ids = HashSet::new();
    let mut all = vec![];
    while all.len() < n {
        let mut lot = vec![];
        for _ in 0..50.min(n - all.len()) {
            let mut p = Pkt::connect("", 60);
            if r.chance(1, 2) {
                p.props.push((0x11, V::U32(r.u32())));
            }
            let mut c = Cli::open(&b, false, "crowd")?;
            c.send(&p);
            lot.push((c, p));
        }
        for (mut c, p) in lot {
            let k = match c.recv(limit()) {
                Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => k,
                e => return bad("a supported CONNECT is not answered with a success CONNACK", format!("client {} of a crowd: {}", all.len(), ev(&e))),
            };
            let id = check_connack(&b, &p, &k, false)?;
            if !ids.insert(id.clone()) {
                return bad("an assigned client identifier is not unique", format!("{id:?}, the {}th of a crowd", all.len()));
            }
            all.push(c);
        }
    }
    let have = b.clients()?;
    if have.len() != ids.len() || !have.iter().all(|x| ids.contains(x)) {
        return bad("the registered clients are not the connected ones", format!("{} registered, {} connected", have.len(), ids.len()));
    }
    rep.evaluations += n as u64;
    rep.count("assigned_identifiers_at_once", n as u64);
    b.check_panics()
}
/// more connections, one lot after the other, than 16 bits can number
fn procession(r: &mut Rng, rep: &mut refmqtt::report::Report) -> Res<()> {
    const N: usize = 66_500;
    let b = Broker::start(Cfg { keep_alive: 60, ..Cfg::default() })?;
    let mut stay = Cli::connect(&b, false, "stay")?;
    stay.sub_ok(&[("p/#", OPT)])?;
    let mut n = 0;
    while n < N {
        let mut ids = HashSet::new();
        let mut lot = vec![];
        for _ in 0..100 {
            let id = if r.chance(1, 3) { format!("p{}", n + lot.len()) } else { String::new() };
            let p = Pkt::connect(&id, 60);
            let mut c = Cli::open(&b, false, "procession")?;
            c.send(&p);
            lot.push((c, p));
        }
        for (c, p) in lot.iter_mut() {
            let k = match c.recv(limit()) {
                Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => k,
                e => return bad("a supported CONNECT is not answered with a success CONNACK", format!("the {n}th of a broker: {}", ev(&e))),
            };
            let id = check_connack(&b, p, &k, false)?;
            if !ids.insert(id.clone()) {
                return bad("an assigned client identifier is not unique", id);
            }
        }
        n += lot.len();
        for (mut c, p) in lot {
            if n % 5000 == 0 && p.client_id.is_empty() {
                c.publish(&format!("p/{n}"), b"x");
                stay.expect_pub(&format!("p/{n}"), b"x")?;
            }
            c.abort();
        }
    }
    if !wait(limit(), || matches!(b.clients(), Ok(v) if v.len() == 1)) {
        return bad("the registered clients are not the connected ones", format!("after {n} connections: {:?}", b.clients().ok()));
    }
    rep.evaluations += n as u64;
    rep.count("connections_of_one_broker", n as u64);
    b.check_panics()
}
/// clients that choose identifiers which the broker may be about to assign
fn guess(b: &Broker, ids: &mut HashSet<String>, all: &mut Vec<Cli>, r: &mut Rng, rep: &mut refmqtt::report::Report) -> Res<()> {
    let enc = crypt(b.cfg.only.unwrap_or(r.chance(1, 3)));
    let mut join = |id: &str, rep: &mut refmqtt::report::Report| -> Res<String> {
        let p = Pkt::connect(id, 60);
        let (mut c, k) = Cli::connect_with(b, enc, &p)?;
        let got = check_connack(b, &p, &k, enc)?;
        c.name = got.clone();
        if !ids.insert(got.clone()) {
            return bad("an assigned client identifier is not unique", format!("{got:?}, which another client had chosen"));
        }
        all.push(c);
        rep.evaluations += 1;
        Ok(got)
    };
    let (x, y) = (join("", rep)?, join("", rep)?);
    // what would come next if the last one (or the difference of the last two) were counted on
    let mut next = vec![];
    for radix in [10u32, 16] {
        let split = |s: &str| {
            let n = s.chars().rev().take_while(|c| c.is_digit(radix)).count().min(15);
            let at = s.len() - n;
            s.is_char_boundary(at).then(|| (s[..at].to_string(), u64::from_str_radix(&s[at..], radix).ok(), n))
        };
        let (Some((a, Some(m), _)), Some((c, Some(n), w))) = (split(&x), split(&y)) else { continue };
        let step = if a == c { n.wrapping_sub(m) } else { 1 };
        for d in [1u64, 2, 3, step, step.wrapping_mul(2)] {
            let v = n.wrapping_add(d) & ((1 << 60) - 1);
            next.push(if radix == 10 { format!("{c}{v:0w$}") } else { format!("{c}{v:0w$x}") });
        }
    }
    next.sort();
    next.dedup();
    next.retain(|s| *s != x && *s != y);
    for n in &next {
        join(n, rep)?;
    }
    for _ in 0..4 {
        join("", rep)?;
    }
    rep.count("identifiers_guessed", next.len() as u64);
    Ok(())
}
pub fn s06() -> i32 {
    perturb(25, 100);
    let rep = episodes(
        "S06",
        "a CONNECT is non-trivial by (listener, properties present, identifier empty or not, alone or concurrent); distinct ones are counted",
        Plan::new(1200, 30000),
        |e, r, rep| {
            match e % 1000 {
                0 => return procession(r, rep),
                500 => return crowd(r, rep),
                _ => (),
            }
            let cfg = Cfg { keep_alive: *r.pick(&[5u16, 7, 60, 256, 65535]), max: *r.pick(&[200u32, 1000, 65519, 65520, 65536, 300_000]), ..Cfg::random(r) };
            let cfg = Cfg { only: *r.pick(&[None, None, None, Some(true), Some(false)]), ..cfg };
            if let Some(enc) = cfg.only {
                rep.count(if enc { "brokers_with_encrypted_listener_only" } else { "brokers_with_plain_listener_only" }, 1);
            }
            let b = Broker::start(cfg)?;
            let mut ids = HashSet::new();
            let mut all = vec![];
            for round in 0..4 {
                let n = if round % 2 == 0 { 1 } else { r.range(2, 12) };
                let jobs: Vec<(Pkt, bool, u64)> = (0..n)
                    .map(|k| {
                        let id = match r.below(3) {
                            0 => format!("id-{round}-{k}"),
                            1 if b.cfg.max > 1000 => format!("{round}.{k}.{}", gen::gstr_len(r, *r.clone().pick(&[10usize, 500, 60_000])).chars().filter(|c| *c != '\0').collect::<String>()),
                            _ => String::new(),
                        };
                        let mut p = good_connect(r, &id);
                        if encode(&p).len() > b.cfg.max.min(65519) as usize {
                            p.client_id = format!("id-{round}-{k}");
                            p.props.clear();
                        }
                        (p, crypt(b.cfg.only.unwrap_or(r.chance(1, 3))), r.next())
                    })
                    .collect();
                let gate = std::sync::Barrier::new(jobs.len());
                let res: Vec<Res<(Cli, String)>> = std::thread::scope(|s| {
                    let (b, gate) = (&b, &gate);
                    jobs.iter()
                        .map(|(p, enc, seed)| {
                            s.spawn(move || {
                                let mut r = Rng::new(*seed);
                                let c = Cli::open(b, *enc, "s06");
                                gate.wait();
                                let mut c = c?;
                                if let Some(V::U32(m)) = p.prop(0x27) {
                                    c.announced = Some(*m);
                                }
                                let w = c.seal(&encode(p));
                                let seg = if r.chance(1, 4) { Seg::Random } else { Seg::Whole };
                                c.send_seg(&w, seg, &mut r);
                                let k = match c.recv(limit()) {
                                    Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => k,
                                    e => return bad("a supported CONNECT is not answered with a success CONNACK", format!("{}\n{p:?}\n{:?}", ev(&e), b.cfg)),
                                };
                                let id = check_connack(b, p, &k, *enc)?;
                                if !b.has_client(&id)? {
                                    return bad("a client that was told it is connected is not registered", format!("{id:?}"));
                                }
                                c.name = id.clone();
                                Ok((c, id))
                            })
                        })
                        .collect::<Vec<_>>()
                        .into_iter()
                        .map(|h| h.join().unwrap())
                        .collect()
                });
                for (x, (p, enc, _)) in res.into_iter().zip(&jobs) {
                    let (c, id) = x?;
                    if !ids.insert(id.clone()) {
                        return bad("an assigned client identifier is not unique", id);
                    }
                    rep.evaluations += 1;
                    rep.count(if p.client_id.is_empty() { "assigned_identifiers" } else { "chosen_identifiers" }, 1);
                    rep.distinct.insert(fnv(format!("{enc}{}{n}{:?}", p.client_id.is_empty(), p.props.iter().map(|x| x.0).collect::<Vec<_>>()).as_bytes()));
                    all.push(c);
                }
            }
            guess(&b, &mut ids, &mut all, r, rep)?;
            // one whose maximum packet size is exactly what its CONNACK needs
            let enc = crypt(b.cfg.only.unwrap_or(r.chance(1, 3)));
            let id = if r.chance(1, 2) { "tight" } else { "" };
            let mut p = good_connect(r, id);
            p.props.retain(|x| x.0 == 0x11 || x.0 == 0x21);
            p.props.push((0x27, V::U32(b.cfg.max)));
            for k in 0..2 {
                let mut c = Cli::open(&b, enc, "tight")?;
                c.send(&p);
                let n = match c.recv(limit()) {
                    Ev::Pkt(q, n) if q.ty == CONNACK && q.reason == 0 => {
                        check_connack(&b, &p, &q, enc)?;
                        n
                    }
                    e => return bad("a supported CONNECT is not answered with a success CONNACK", format!("{} {p:?}, sent for the {}. time", ev(&e), k + 1)),
                };
                p.props.last_mut().unwrap().1 = V::U32(n as u32);
            }
            if !wait(limit(), || matches!(b.clients(), Ok(v) if v.len() == all.len())) {
                return bad("the registered clients are not the connected ones", format!("{:?}", b.clients().ok()));
            }
            let mut names = b.clients()?;
            names.sort();
            let mut want: Vec<_> = ids.into_iter().collect();
            want.sort();
            if names != want {
                return bad("the registered clients are not the connected ones", format!("registered {names:?}\nconnected {want:?}"));
            }
            // exactly one CONNACK each, and every one of them is usable
            for (k, c) in all.iter_mut().enumerate() {
                let t = format!("u/{k}");
                c.sub_ok(&[(&t, OPT)])?;
                c.publish(&t, b"x");
                c.expect_pub(&t, b"x")?;
            }
            b.check_panics()
        },
    );
    finish(rep)
}

/// well-formed requests the broker does not implement
pub fn unsupported_request(r: &mut Rng, me: &str) -> (Pkt, &'static str) {
    let n = *r.pick(&[0usize, 1, 15, 15, 15, 200, 3000]);
    let mut p = Pkt::publish("u/t", &b"must not arrive ".repeat(n.div_ceil(16))[..n]);
    let mut pid = gen::pid(r);
    if pid == 0 {
        pid = 1;
    }
    match r.below(21) {
        0 => {
            p.flags = 2;
            p.id = Some(pid);
            (p, "QoS 1")
        }
        1 => {
            p.flags = 4;
            p.id = Some(pid);
            (p, "QoS 2")
        }
        2 => {
            p.flags = 1;
            (p, "retained")
        }
        3 => {
            p.flags = 0x0a;
            p.id = Some(pid);
            (p, "duplicate")
        }
        4 => {
            p.props.push((0x23, V::U16(*r.pick(&[1u16, 7, 65535]))));
            if r.chance(1, 3) {
                p.topic = String::new();
            }
            (p, "topic alias")
        }
        5 => {
            p.props.push((0x02, V::U32(*r.pick(&[1u32, 100, u32::MAX]))));
            (p, "message expiry")
        }
        6 => {
            p.props.push((0x0b, V::VI(*r.pick(&[1u32, 127, 128, 268_435_455]))));
            (p, "subscription identifier in PUBLISH")
        }
        7 => {
            let mut s = Pkt::subscribe(pid, &[("u/#", OPT), ("other", OPT)]);
            s.props.push((0x0b, V::VI(5)));
            (s, "subscription identifier in SUBSCRIBE")
        }
        8 => (Pkt { id: Some(pid), filters: vec!["keep/#".into(), "#".into()], ..Pkt::new(UNSUBSCRIBE) }, "UNSUBSCRIBE"),
        9 => (Pkt::new(PINGREQ), "PINGREQ"),
        10 => {
            let mut a = Pkt { reason: 0x19, ..Pkt::new(AUTH) };
            a.props.push((0x15, V::S("SCRAM".into())));
            (a, "re-authentication")
        }
        11 => (Pkt::connect(me, 60), "second CONNECT"),
        12 => (Pkt::connect("bystander", 60), "second CONNECT with another's identifier"),
        13 => (Pkt::new(PINGRESP), "PINGRESP"),
        14 => (Pkt { id: Some(pid), codes: vec![0], ..Pkt::new(SUBACK) }, "SUBACK"),
        15 => (Pkt { id: Some(pid), codes: vec![0], ..Pkt::new(UNSUBACK) }, "UNSUBACK"),
        // acknowledgements of publications the broker never made
        16 => (Pkt { id: Some(pid), ..Pkt::new(PUBACK) }, "PUBACK"),
        17 => (Pkt { id: Some(pid), ..Pkt::new(PUBREC) }, "PUBREC"),
        18 => (Pkt { id: Some(pid), ..Pkt::new(PUBREL) }, "PUBREL"),
        19 => (Pkt { id: Some(pid), ..Pkt::new(PUBCOMP) }, "PUBCOMP"),
        _ => (Pkt::new(CONNACK), "CONNACK"),
    }
}
pub fn s12() -> i32 {
    perturb(15, 60);
    let rep = episodes(
        "S12",
        "a request is non-trivial by (kind, listener, what went before it, properties added); distinct ones are counted",
        Plan::new(3000, 60000),
        |_, r, rep| {
            let b = Broker::start(Cfg::random(r))?;
            let mut o = Obs::new(&b, r)?;
            let mut by = Cli::connect(&b, r.chance(1, 3), "bystander")?;
            by.name = "bystander".into();
            by.sub_ok(&[("keep/#", OPT)])?;
            for k in 0..16 {
                let enc = crypt(r.chance(1, 3));
                let me = format!("me{k}");
                let mut c = Cli::connect(&b, enc, &me)?;
                c.name = format!("requester {k} enc {enc}");
                c.sub_ok(&[("mine/#", OPT), ("keep/#", OPT)])?;
                let (mut p, kind) = unsupported_request(r, &me);
                if r.chance(1, 3) && matches!(p.ty, PUBLISH | SUBSCRIBE | UNSUBSCRIBE) {
                    let at = r.below(p.props.len() + 1);
                    p.props.insert(at, (0x26, V::S("k".into())));
                    if p.ty == PUBLISH {
                        let at = r.below(p.props.len() + 1);
                        p.props.insert(at, (0x03, V::S("text".into())));
                    }
                }
                let ctx = format!("requester enc {enc}: {kind}: {p:?}");
                let pre = r.below(4);
                let mut w = vec![];
                for i in 0..pre {
                    let f = c.seal(&encode(&Pkt::publish("mine/pre", format!("{i}").as_bytes())));
                    w.extend_from_slice(&f);
                }
                let f = c.seal(&encode(&p));
                w.extend_from_slice(&f);
                c.send_seg(&w, *r.clone().pick(&[Seg::Whole, Seg::Random]), r);
                let got = c.expect_closed("after an unsupported request").map_err(|x| Bad { what: x.what, detail: format!("{}\n{ctx}", x.detail) })?;
                let okpre = got.len() == pre + 1 && got[..pre].iter().enumerate().all(|(i, p)| p.ty == PUBLISH && p.payload == format!("{i}").into_bytes());
                match got.last() {
                    Some(d) if d.ty == DISCONNECT && d.reason >= 0x80 && okpre => (),
                    _ => {
                        return bad(
                            "an unsupported request is not answered with a DISCONNECT as the last packet",
                            format!("expected {pre} own publications and a DISCONNECT, got {:?}\n{ctx}", got.iter().map(short).collect::<Vec<_>>()),
                        )
                    }
                }
                let v = o.until_mark()?;
                if v.len() != pre || v.iter().any(|p| p.topic != "mine/pre") {
                    return bad("an unsupported request takes effect", format!("observer got {:?}\n{ctx}", v.iter().map(short).collect::<Vec<_>>()));
                }
                // the bystander keeps its connection and its subscription
                o.publish("keep/x", b"1");
                by.expect_pub("keep/x", b"1").map_err(|x| Bad { what: "an unsupported request disturbs another client".into(), detail: format!("{}\n{ctx}", x.detail) })?;
                o.until_mark()?;
                let gone = wait(limit(), || matches!(b.subscribers("u/t", &["obs-sub"]), Ok(s) if s.len() == 1) && matches!(b.has_client(&me), Ok(false)));
                if !gone {
                    return bad("an unsupported request leaves something behind", format!("{:?} clients {:?}\n{ctx}", b.subscribers("u/t", &[]).ok(), b.clients().ok()));
                }
                rep.evaluations += 1;
                rep.count("requests", 1);
                rep.distinct.insert(fnv(format!("{kind}{enc}{pre}{:?}", p.props.iter().map(|x| x.0).collect::<Vec<_>>()).as_bytes()));
                rep.sample(kind);
            }
            b.check_panics()
        },
    );
    finish(rep)
}

pub fn s18() -> i32 {
    perturb(5, 30);
    const KA: u16 = 1;
    let rep = episodes(
        "S18",
        "a connection is non-trivial by (listener, where it stops, trickle interval); distinct ones are counted",
        Plan::new(8, 120).threads(8).secs(120.0, 700.0),
        |e, r, rep| {
            // with a long keep alive, whatever its value is, there is time
            const LONG: [u16; 16] = [21846, 66, 43691, 32768, 65535, 257, 16384, 21845, 87, 131, 263, 258, 512, 1025, 13108, 54614];
            let ample = Broker::start(Cfg { keep_alive: LONG[e % LONG.len()], queue: 1000, ..Cfg::default() })?;
            let opened = std::time::Instant::now();
            let mut unhurried = vec![];
            for stage in 0..4 {
                let enc = crypt(stage > 1);
                let mut c = Cli::open_raw(&ample, enc, &format!("unhurried, encrypted {enc}, stage {stage}, keep alive {}", ample.cfg.keep_alive))?;
                let w = encode(&Pkt::connect(&format!("unhurried{stage}"), 60));
                let mut rest = None;
                match stage {
                    1 => {
                        c.send_raw(&w[..5]);
                        rest = Some(w[5..].to_vec());
                    }
                    3 if enc => {
                        c.handshake(&keys().1)?;
                    }
                    _ => (),
                }
                unhurried.push((c, stage, rest));
            }
            let b = Broker::start(Cfg { keep_alive: KA, queue: 1000, ..Cfg::default() })?;
            // those who complete in time and then do as they please
            let mut fine = vec![];
            for i in 0..4 {
                let enc = crypt(i % 2 == 1);
                let mut c = Cli::open_raw(&b, enc, "fine")?;
                if enc {
                    c.handshake(&keys().1)?;
                }
                if i >= 2 {
                    std::thread::sleep(Duration::from_millis(400));
                }
                let w = c.seal(&encode(&Pkt::connect(&format!("fine{i}"), 60)));
                c.send_raw(&w);
                match c.recv(limit()) {
                    Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => (),
                    e => return bad("a connection that completes in time is refused", ev(&e)),
                }
                c.sub_ok(&[(&format!("fine/{i}"), OPT)])?;
                fine.push(c);
            }
            struct T {
                c: Cli,
                kind: String,
                rest: Vec<u8>,
                at: usize,
                every: Duration,
                next: std::time::Instant,
                d: Deadline,
            }
            let mut ts: Vec<T> = vec![];
            let now = std::time::Instant::now();
            for i in 0..r.range(24, 40) {
                let enc = crypt(r.chance(1, 2));
                let mut c = Cli::open_raw(&b, enc, "late")?;
                let every = Duration::from_millis(*r.pick(&[50u64, 150, 300, 700]));
                // long enough that it would not be complete by trickling
                let long = "late-client-".to_string() + &"x".repeat(400);
                let connect = encode(&Pkt::connect(&long, 60));
                let (kind, pre, rest): (&str, usize, Vec<u8>) = match (enc, r.below(6)) {
                    (false, 0) => ("silent", 0, vec![]),
                    (false, 1) => ("partial CONNECT", r.range(1, connect.len() - 1), vec![]),
                    (false, 2) => ("fixed header only", 2, vec![]),
                    (false, _) => ("trickled CONNECT", r.range(0, 20), connect.clone()),
                    (true, 0) => ("silent before the handshake", 0, vec![]),
                    (true, 1) => ("partial handshake message", 0, vec![]),
                    (true, 2) => ("trickled handshake message", 0, noise_frame(&r.bytes(4000))),
                    (true, 3) => ("handshake then silent", 0, vec![]),
                    (true, 4) => ("handshake then trickled CONNECT", 4, vec![]),
                    _ => ("first handshake message only", 0, vec![]),
                };
                let mut rest = rest;
                match kind {
                    "partial handshake message" => {
                        c.send_raw(&noise_frame(&r.bytes(48))[..r.range(1, 51)]);
                    }
                    "first handshake message only" => {
                        let bld = snow::Builder::new(NOISE.parse().unwrap());
                        let kp = bld.generate_keypair().unwrap();
                        let mut hs = bld.local_private_key(&kp.private).remote_public_key(&keys().1).build_initiator().unwrap();
                        let mut buf = [0u8; 300];
                        let n = hs.write_message(&[], &mut buf).unwrap();
                        c.send_raw(&noise_frame(&buf[..n]));
                    }
                    "handshake then silent" | "handshake then trickled CONNECT" => {
                        c.handshake(&keys().1)?;
                        if kind.contains("trickled") {
                            rest = c.seal(&connect);
                        }
                    }
                    _ => {
                        if rest.is_empty() {
                            c.send_raw(&connect[..pre]);
                        }
                    }
                }
                let at = if rest.is_empty() { 0 } else { pre.min(rest.len()) };
                if at > 0 {
                    c.send_raw(&rest[..at]);
                }
                c.name = format!("late{i} {kind} every {every:?}");
                rep.distinct.insert(fnv(format!("{enc}{kind}{every:?}{}", pre).as_bytes()));
                ts.push(T { c, kind: kind.into(), rest, at, every, next: now, d: Deadline::new(KA as f64 * 6.0 + 3.0) });
            }
            // drive all of them until the broker has closed each
            while !ts.is_empty() {
                let mut i = 0;
                while i < ts.len() {
                    let t = &mut ts[i];
                    if t.at < t.rest.len() && std::time::Instant::now() >= t.next {
                        let x = t.rest[t.at];
                        t.c.send_for(&[x], 0.1);
                        t.at += 1;
                        t.next = std::time::Instant::now() + t.every;
                    }
                    t.c.s.set_nonblocking(true).unwrap();
                    let mut buf = [0u8; 1000];
                    let closed = match std::io::Read::read(&mut t.c.s, &mut buf) {
                        Ok(0) => true,
                        Ok(_) => false,
                        Err(e) => !matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::Interrupted),
                    };
                    t.c.s.set_nonblocking(false).unwrap();
                    if closed {
                        rep.evaluations += 1;
                        rep.count(&format!("closed: {}", t.kind), 1);
                        ts.swap_remove(i);
                        continue;
                    }
                    if t.d.over() {
                        return bad("a connection that never finishes connecting stays open", format!("{} after more than {} times the keep alive time", t.c.name, 6));
                    }
                    i += 1;
                }
                std::thread::sleep(Duration::from_millis(15));
            }
            let mut names = b.clients()?;
            names.sort();
            if names != ["fine0", "fine1", "fine2", "fine3"] {
                return bad("the set of registered clients is wrong after the connect timeouts", format!("{names:?}"));
            }
            // the complete ones, silent for several keep alive times by now, are still there
            let extra = Deadline::new(4.5 * KA as f64);
            wait(extra, || false);
            for (i, c) in fine.iter_mut().enumerate() {
                let t = format!("fine/{i}");
                c.publish(&t, b"alive");
                if let Err(x) = c.expect_pub(&t, b"alive") {
                    return bad("a connection that completed in time is closed by the connect limit", x.detail);
                }
                rep.count("completed_still_served", 1);
            }
            wait(Deadline::new(4.0), || opened.elapsed() > Duration::from_secs(4));
            for (mut c, stage, rest) in unhurried {
                if stage == 2 && c.enc {
                    if !matches!(c.handshake(&keys().1), Ok(true)) {
                        return bad("a connection is given up long before its time", format!("{} after {:?}", c.name, opened.elapsed()));
                    }
                }
                let w = match rest {
                    Some(rest) => rest,
                    None => c.seal(&encode(&Pkt::connect(&format!("unhurried{stage}"), 60))),
                };
                c.send_raw(&w);
                match c.recv(limit()) {
                    Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => rep.count("unhurried_connections", 1),
                    x => return bad("a connection is given up long before its time", format!("{} after {:?}: {}", c.name, opened.elapsed(), ev(&x))),
                }
            }
            ample.check_panics()?;
            b.check_panics()
        },
    );
    finish(rep)
}
