//! S01, S03, S10, S16: random histories against the reference model with different emphasis.
use crate::cli::*;
use crate::env::*;
use crate::hist::*;
use crate::server::*;
use refmqtt::gen;
use refmqtt::report::*;
use refmqtt::rng::Rng;
use refmqtt::wire::*;

fn account(h: &mut Hist, r: &mut Report) {
    r.evaluations += h.deliveries;
    r.count("deliveries_checked", h.deliveries);
    r.count("publications_repeated", h.repeated);
    for s in std::mem::take(&mut h.shapes) {
        r.distinct.insert(s);
    }
    h.deliveries = 0;
}
fn client_id(r: &mut Rng, n: usize) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => format!("ü-{n}-中"),
        2 => format!("{n}{}", "x".repeat(r.below(300))),
        3 => format!("echo/{n}"),
        _ => format!("c{n}"),
    }
}
pub fn s01(prop: &str) -> i32 {
    perturb(20, 60);
    let rep = episodes(
        prop,
        "a delivery is non-trivial by (number of receivers, topic depth, forwarded properties, payload size class); distinct ones are counted",
        Plan::new(1000, 20000),
        |e, r, rep| {
            if e % 12 == 7 {
                return extents(e / 12, r, rep);
            }
            let b = Broker::start(Cfg::random(r))?;
            let mut h = Hist::new(&b, "s01");
            let mut topics: Vec<String> = (0..6).map(|_| topic(r)).collect();
            for i in 0..r.range(2, 6) {
                let id = client_id(r, i);
                h.connect(r.chance(1, 3), &id, None)?;
            }
            for step in 0..60 {
                match r.below(12) {
                    0 if h.cs.len() < 9 => {
                        let id = client_id(r, 100 + step);
                        h.connect(r.chance(1, 3), &id, None)?;
                    }
                    1 if h.cs.len() > 2 && r.chance(1, 2) => {
                        let i = r.below(h.cs.len());
                        h.close(i, r)?;
                    }
                    2 => {
                        let i = r.below(topics.len());
                        topics[i] = topic(r);
                    }
                    3..=6 => {
                        h.quiesce()?;
                        let i = r.below(h.cs.len());
                        let many = if r.chance(1, 10) { r.range(10, 60) } else { r.range(1, 4) };
                        let subs: Vec<(String, u8)> = (0..many)
                            .map(|_| {
                                let t = r.pick(&topics).clone();
                                (filter_for(r, &t), OPT | if r.chance(1, 8) { NL } else { 0 } | if r.chance(1, 8) { RAP } else { 0 })
                            })
                            .collect();
                        h.subscribe(i, &subs)?;
                    }
                    _ => {
                        for _ in 0..r.range(1, 12) {
                            let i = r.below(h.cs.len());
                            let t = if r.chance(3, 4) { r.pick(&topics).clone() } else { topic(r) };
                            let (pl, pp) = (h.payload(r), pub_props(r));
                            h.publish(i, &t, pl, pp)?;
                        }
                        if r.chance(1, 2) {
                            h.quiesce()?;
                        }
                    }
                }
            }
            h.finish()?;
            account(&mut h, rep);
            if e < 3 {
                rep.sample(h.log[h.log.len().saturating_sub(6)..].join(" | "));
            }
            Ok(())
        },
    );
    finish(rep)
}
/// thousands of receivers
fn multitude(r: &mut Rng, rep: &mut Report) -> Res<()> {
    const N: usize = 4200;
    let b = Broker::start(Cfg::random(r))?;
    let mut cs = vec![];
    for i in 0..N {
        let mut c = Cli::connect(&b, i % 40 == 39, &format!("m{i}"))?;
        let f = ["mt/all", "mt/#", "+/all", "mt/+", "other/all", "#"][i % 6];
        c.sub_ok(&[(f, OPT)])?;
        cs.push((c, i % 6 != 4));
    }
    let mut src = Cli::connect(&b, r.chance(1, 2), "src")?;
    for k in 0..4 {
        let m = format!("to all {k}");
        src.publish("mt/all", m.as_bytes());
        for (c, due) in cs.iter_mut() {
            if *due {
                c.expect_pub("mt/all", m.as_bytes()).map_err(|x| Bad { what: "a publication is never delivered".into(), detail: format!("one of {N} clients: {}", x.detail) })?;
                rep.evaluations += 1;
            }
        }
    }
    src.publish("other/all", b"end");
    for (i, (c, due)) in cs.iter_mut().enumerate() {
        if !*due || i % 6 == 2 || i % 6 == 5 {
            c.expect_pub("other/all", b"end").map_err(|x| Bad { what: "a client received a publication it is not owed (no matching subscription, or a duplicate)".into(), detail: format!("one of {N} clients: {}", x.detail) })?;
            rep.evaluations += 1;
        }
    }
    rep.count("many_receivers", N as u64);
    b.check_panics()
}
/// the same with much more of one thing: receivers, filters, levels, bytes in a name, properties, payload
fn extents(k: usize, r: &mut Rng, rep: &mut Report) -> Res<()> {
    let what = ["crowd", "filters", "levels", "names", "properties", "payloads"][k % 6];
    if k % 60 == 12 {
        return multitude(r, rep);
    }
    let mut cfg = Cfg::random(r);
    cfg.max = *r.pick(&[1 << 20, 3 << 20]);
    cfg.strict = r.chance(1, 4);
    let b = Broker::start(cfg)?;
    let mut h = Hist::new(&b, "s01x");
    let few = r.range(2, 5);
    let n = match what {
        "crowd" => *r.pick(&[70usize, 130, 260, 300]),
        _ => few,
    };
    for i in 0..n {
        let enc = crypt(r.chance(1, if n > 20 { 8 } else { 3 }));
        h.connect(enc, &format!("x{i}"), None)?;
    }
    let long = |r: &mut Rng, n: usize| -> String { gen::gstr_len(r, n).replace(['#', '+', '/', '$'], "x") };
    match what {
        "crowd" => {
            for i in 0..n {
                let mine = format!("crowd/{}", i % 7);
                let fs: &[(&str, u8)] = match i % 5 {
                    0 => &[("crowd/all", OPT)],
                    1 => &[("crowd/#", OPT)],
                    2 => &[("crowd/+", OPT), ("crowd/all", OPT)],
                    3 => &[("+/all", OPT)],
                    _ => &[("crowd/all", OPT | NL)],
                };
                let mut fs: Vec<(String, u8)> = fs.iter().map(|f| (f.0.to_string(), f.1)).collect();
                fs.push((mine, OPT));
                h.subscribe(i, &fs)?;
            }
            for _ in 0..12 {
                let i = r.below(n);
                let t = if r.chance(1, 2) { "crowd/all".to_string() } else { format!("crowd/{}", r.below(9)) };
                let (pl, pp) = (h.payload(r), pub_props(r));
                h.publish(i, &t, pl, pp)?;
            }
        }
        "filters" => {
            for i in 0..n {
                let m = *r.pick(&[30usize, 100, 300, 1500]);
                let name = |k: usize, r: &mut Rng| match k % 5 {
                    0 => format!("f/{k}"),
                    1 => format!("f/{k}/+"),
                    2 => format!("g{k}/#"),
                    3 => format!("+/{k}/{k}"),
                    _ => format!("{}/{k}", level(r)),
                };
                let fs: Vec<(String, u8)> = (0..m).map(|k| (name(k, r), OPT)).collect();
                for p in fs.chunks(*r.pick(&[1usize, 10, 130, 1000])) {
                    h.subscribe(i, p)?;
                }
            }
            for j in 0..60 {
                let k = if j % 6 == 0 { *r.pick(&[29, 99, 299, 1499]) } else { r.below(1500) };
                let t = match r.below(5) {
                    0 => format!("f/{k}"),
                    1 => format!("f/{k}/{}", level(r)),
                    2 => format!("g{k}/{}", topic(r)),
                    3 => format!("{}/{k}/{k}", level(r)),
                    _ => format!("{}/{k}", level(r)),
                };
                let i = r.below(n);
                let pl = h.payload(r);
                h.publish(i, &t, pl, vec![])?;
                if j == 30 && n > 2 {
                    let i = r.below(n);
                    h.close(i, r)?;
                    h.connect(r.chance(1, 3), &format!("x{i}"), None)?;
                }
            }
        }
        "levels" => {
            for j in 0..30 {
                let d = *r.pick(&[50usize, 63, 64, 65, 99, 100, 127, 128, 129, 199, 200, 255, 256, 300, 1000, 5000, 30_000]);
                let mut t = (0..d).map(|_| r.pick(&["a", "b", ""])).cloned().collect::<Vec<_>>().join("/");
                t.insert(0, 'L');
                h.quiesce()?;
                for i in 0..n {
                    // deep filters may be refused, shallow ones that end in # reach all the way down
                    let f = match r.below(6) {
                        0 | 1 => filter_for(r, &t),
                        2 => t.clone(),
                        3 => {
                            let keep = r.range(1, d.min(100));
                            let mut l: Vec<&str> = t.split('/').take(keep).collect();
                            l.push("#");
                            l.join("/")
                        }
                        4 => "#".to_string(),
                        _ => {
                            let l: Vec<&str> = t.split('/').map(|x| if r.chance(1, 4) { "+" } else { x }).collect();
                            l.join("/")
                        }
                    };
                    h.subscribe(i, &[(f, OPT)])?;
                }
                for _ in 0..3 {
                    let i = r.below(n);
                    let pl = vec![j as u8; r.below(50)];
                    h.publish(i, &t, pl, vec![])?;
                    // and what lies below or above it
                    let i = r.below(n);
                    let other = match r.below(3) {
                        0 => format!("{t}{}", "/a".repeat(*r.pick(&[1usize, 2, 44, 200, 800]))),
                        1 => format!("{t}/"),
                        _ => t.rsplit_once('/').map_or("L", |x| x.0).to_string(),
                    };
                    h.publish(i, &other, vec![j as u8], vec![])?;
                }
            }
        }
        "names" => {
            for j in 0..20 {
                let m = *r.pick(&[100usize, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 20_000, 32_767, 32_768, 58_000]);
                let mut t = long(r, m);
                if r.chance(1, 2) {
                    let c = r.below(t.chars().count());
                    let at = t.char_indices().nth(c).unwrap().0;
                    t.insert(at, '/');
                }
                // one that differs at the far end only
                let mut u = t.clone();
                u.push('y');
                h.quiesce()?;
                for i in 0..n {
                    let f = match r.below(5) {
                        0 => filter_for(r, &t),
                        1 => u.clone(),
                        2 => format!("{t}/#"),
                        _ => t.clone(),
                    };
                    h.subscribe(i, &[(f, OPT)])?;
                }
                for x in [&t, &u] {
                    let i = r.below(n);
                    let pl = vec![j as u8; r.below(50)];
                    h.publish(i, x, pl, if r.chance(1, 3) { vec![(0x08, V::S(long(r, 1000))), (0x03, V::S(long(r, 1000)))] } else { vec![] })?;
                }
            }
        }
        "properties" => {
            for i in 0..n {
                h.subscribe(i, &[("p/#".into(), OPT)])?;
            }
            for j in 0..30 {
                let m = *r.pick(&[9usize, 17, 33, 65, 100, 129, 257, 300, 1000, 2500]);
                let mut pp = pub_props(r);
                for _ in 0..m {
                    pp.push((0x26, V::S(gen::gstr(r, 20))));
                }
                let keep = pp.len().min(60_000 / 90 + 200);
                pp.truncate(keep);
                if r.chance(1, 4) {
                    let n = r.range(100, 20_000);
                    pp.retain(|x| x.0 != 0x09);
                    pp.push((0x09, V::B(r.bytes(n))));
                }
                r.shuffle(&mut pp);
                let i = r.below(n);
                h.publish(i, &format!("p/{j}"), vec![j as u8], pp)?;
            }
        }
        _ => {
            for i in 0..n {
                h.subscribe(i, &[("q/#".into(), OPT)])?;
            }
            for j in 0..24 {
                let i = r.below(n);
                let top = if h.cs[i].cli.enc { 65_400 } else { b.cfg.max as usize - 100 };
                let m = match r.below(3) {
                    0 => top - r.below(3),
                    1 => *r.pick(&[127usize, 128, 16_383, 16_384, 32_768, 65_000]),
                    _ => r.below(top),
                };
                let mut m = r.bytes(m);
                m.extend_from_slice(&[b'#', j as u8]);
                let p = Pkt { topic: format!("q/{j}"), payload: m, ..Pkt::new(PUBLISH) };
                h.publish_pkt(i, p, if r.chance(1, 2) { Seg::Whole } else { Seg::Random }, r)?;
                // the broker does not read from a client that it is stuck writing to
                h.quiesce()?;
            }
        }
    }
    h.finish()?;
    account(&mut h, rep);
    rep.count(&format!("many_{what}"), 1);
    Ok(())
}
pub fn finish(mut rep: Report) -> i32 {
    rep.count("forced_yields", perturb_hits());
    rep.count("log_events", LOG_EVENTS.load(std::sync::atomic::Ordering::SeqCst) as u64);
    rep.finish()
}

/// one connection, more SUBSCRIBEs than there are packet identifiers
fn many_subscribes(k: usize, r: &mut Rng, rep: &mut Report) -> Res<()> {
    const N: usize = 66_500;
    let b = Broker::start(Cfg::random(r))?;
    let mut c = Cli::connect(&b, k % 2 == 1, "many")?;
    let mut by = Cli::connect(&b, r.chance(1, 2), "by")?;
    let names = *r.pick(&[3usize, 1000, N]);
    let mut i = 0;
    while i < N {
        let (mut w, from) = (vec![], i);
        for _ in 0..500.min(N - i) {
            let f = format!("m/{}", i % names);
            let o = if i % 7 == 3 { 1 | OPT } else { OPT };
            let id = (i % 65_535 + 1) as u16;
            let f = c.seal(&encode(&Pkt::subscribe(id, &[(&f, o)])));
            w.extend_from_slice(&f);
            i += 1;
        }
        c.send_raw(&w);
        for j in from..i {
            match c.recv(limit()) {
                Ev::Pkt(k, _) if k.ty == SUBACK && k.id == Some((j % 65_535 + 1) as u16) && k.codes.len() == 1 && (k.codes[0] == 0) == (j % 7 != 3) && (k.codes[0] == 0 || k.codes[0] >= 0x80) => (),
                e => return bad("SUBACK does not fit the SUBSCRIBE", format!("the {j}th SUBSCRIBE of a connection: {}", ev(&e))),
            }
        }
        // in force
        let j = (from..i).rev().find(|j| j % 7 != 3).unwrap();
        let t = format!("m/{}", j % names);
        by.publish(&t, b"here");
        c.expect_pub(&t, b"here")?;
    }
    for j in [0usize, 1, 500, 65_534, 65_535, 65_536, 65_537, N - 1] {
        let t = format!("m/{}", j % names);
        // the refused ones were only requested that way, and granted earlier or later unless all names differ
        if names == N && j % 7 == 3 {
            continue;
        }
        by.publish(&t, &[j as u8]);
        c.expect_pub(&t, &[j as u8])?;
    }
    rep.evaluations += N as u64;
    rep.count("subscribes_of_one_connection", N as u64);
    b.check_panics()
}
pub fn s03() -> i32 {
    perturb(20, 60);
    let rep = episodes(
        "S03",
        "a SUBSCRIBE is non-trivial by (number of filters, mixture of option bytes); distinct ones and the deliveries proving them are counted",
        Plan::new(1000, 20000),
        |e, r, rep| {
            if e % 300 == 0 {
                return many_subscribes(e / 300, r, rep);
            }
            let b = Broker::start(Cfg::random(r))?;
            let mut h = Hist::new(&b, "s03");
            let topics: Vec<String> = (0..5).map(|_| topic(r)).collect();
            for i in 0..4 {
                h.connect(crypt(i % 2 == 1), &format!("c{i}"), None)?;
            }
            for _ in 0..40 {
                h.quiesce()?;
                let i = r.below(h.cs.len());
                let many = match r.below(30) {
                    0 => r.range(120, 1500),
                    1..=3 => r.range(20, 80),
                    4..=12 => 1,
                    _ => r.range(2, 6),
                };
                let mut subs: Vec<(String, u8)> = (0..many)
                    .map(|k| {
                        let t = r.pick(&topics).clone();
                        let mut f = filter_for(r, &t);
                        if many > 100 && k % 8 != 0 {
                            f = format!("n{k}/{f}");
                        }
                        if r.chance(1, 60) {
                            let n = *r.pick(&[90usize, 99, 101, 200, 255, 256, 257, 400]);
                            f = "/".repeat(n) + &f;
                        }
                        if r.chance(1, 10) {
                            f = match r.below(10) {
                                0 => "$share/".into(),
                                1 => "$share//".into(),
                                2 => format!("$share/g{}", r.below(2)),
                                3 => format!("$share//{f}"),
                                4 => format!("$share/+/{f}"),
                                5 => "$share/#".into(),
                                _ => format!("$share/g{}/{f}", r.below(2)),
                            };
                        }
                        let o = if r.chance(1, 2) { OPT } else { (*r.pick(&[0u8, 1, 2])) | (*r.pick(&[0u8, 0x10, 0x20])) };
                        (f, o | if r.chance(1, 4) { NL } else { 0 } | if r.chance(1, 4) { RAP } else { 0 })
                    })
                    .collect();
                // ask again for something already granted, in a way that has to be refused
                if r.chance(1, 3) {
                    let have: Vec<String> = h.cs[i].subs.keys().cloned().collect();
                    let f = r.pick(&have).clone();
                    let o = *r.pick(&[1u8 | 0x20, 2 | 0x20, 0, 0x10]) | if r.chance(1, 2) { NL } else { 0 };
                    subs.insert(r.below(subs.len() + 1), (f, o));
                }
                let props = if r.chance(1, 5) { vec![(0x26, V::S("k".into()))] } else { vec![] };
                rep.distinct.insert(refmqtt::rng::fnv(format!("{:?}", subs.iter().map(|s| s.1).collect::<Vec<_>>()).as_bytes()));
                rep.evaluations += 1;
                rep.count("subscribes", 1);
                rep.count("filters", subs.len() as u64);
                if r.chance(1, 3) {
                    // several in a row without waiting: one SUBACK each, in order
                    pipelined(&mut h, i, r, &subs)?;
                } else {
                    h.subscribe_props(i, &subs, props)?;
                }
                // in force right now, for publications of everybody
                for _ in 0..r.range(2, 8) {
                    let k = r.below(h.cs.len());
                    let t = r.pick(&topics).clone();
                    let pl = h.payload(r);
                    h.publish(k, &t, pl, vec![])?;
                }
                // also on topics that fit a filter just asked for
                let (first, len) = (r.below(subs.len()), subs.len());
                for (f, _) in subs.iter().cycle().skip(first).take(len.min(4)) {
                    let t: Vec<&str> = f.split('/').map(|l| if l == "+" || l == "#" { "q" } else { l }).collect();
                    let k = r.below(h.cs.len());
                    let pl = h.payload(r);
                    h.publish(k, &t.join("/"), pl, vec![])?;
                }
            }
            h.finish()?;
            rep.count("deliveries_checked", h.deliveries);
            if e < 3 {
                rep.sample(h.log[h.log.len().saturating_sub(6)..].join(" | "));
            }
            Ok(())
        },
    );
    finish(rep)
}
fn pipelined(h: &mut Hist, i: usize, r: &mut Rng, subs: &[(String, u8)]) -> Res<()> {
    let subs = fitting(subs);
    let k = r.range(1, subs.len().min(5));
    let parts: Vec<Vec<(String, u8)>> = subs.chunks(subs.len().div_ceil(k)).map(|c| c.to_vec()).collect();
    let ids: Vec<u16> = parts.iter().map(|_| 1 + r.below(65535) as u16).collect();
    let mut w = vec![];
    for (p, id) in parts.iter().zip(&ids) {
        let p = Pkt { id: Some(*id), subs: p.clone(), ..Pkt::new(SUBSCRIBE) };
        let f = h.cs[i].cli.seal(&encode(&p));
        w.extend_from_slice(&f);
    }
    let n = h.cs[i].n;
    h.note(format!("subscribe #{n} pipelined {parts:?} ids {ids:?}"));
    h.cs[i].cli.send_raw(&w);
    for (p, id) in parts.iter().zip(&ids) {
        loop {
            match h.cs[i].cli.recv(limit()) {
                Ev::Pkt(k, _) if k.ty == SUBACK => {
                    if k.id != Some(*id) || k.codes.len() != p.len() {
                        return h.fail("SUBACK does not fit the SUBSCRIBE", format!("#{n}: expected id {id} with {} codes, got {}", p.len(), short(&k)));
                    }
                    for ((f, o), c) in p.iter().zip(&k.codes) {
                        let ok = granted(f, *o).unwrap_or(*c == 0);
                        if ok != (*c == 0) || (!ok && *c < 0x80) {
                            return h.fail("a filter is answered with the wrong code", format!("#{n}: {f:?} options {o:02x} got {c:02x}"));
                        }
                        if ok {
                            h.cs[i].subs.insert(f.clone(), *o);
                        }
                    }
                    break;
                }
                Ev::Pkt(k, _) => h.take(i, k)?,
                e => return h.fail("a SUBSCRIBE is not acknowledged", format!("#{n}: {p:?} {}", ev(&e))),
            }
        }
    }
    Ok(())
}

pub fn s10() -> i32 {
    perturb(20, 60);
    let rep = episodes(
        "S10",
        "a publication is non-trivial by (mode, publisher kind, receivers, topic depth, properties, size class); distinct ones are counted",
        Plan::new(1000, 20000),
        |e, r, rep| {
            let strict = e % 4 != 0;
            let b = Broker::start(Cfg { strict, ..Cfg::random(r) })?;
            if e % 3 == 2 {
                return takeover_leak(&b, r, rep);
            }
            let mut h = Hist::new(&b, "s10");
            let topics: Vec<String> = (0..3).map(|_| topic(r)).collect();
            // sometimes nearly nobody: one or two of each kind at most
            let few = r.chance(1, 3);
            for i in 0..if few { r.range(1, 3) } else { 6 } {
                let enc = crypt(if few { r.chance(1, 2) } else { i % 2 == 1 });
                h.connect(enc, &format!("c{i}"), None)?;
            }
            for step in 0..40 {
                match r.below(8) {
                    0 if h.cs.len() > if few { 1 } else { 4 } => {
                        let i = r.below(h.cs.len());
                        h.close(i, r)?;
                    }
                    1 if !few || h.cs.len() < 3 => {
                        // sometimes an identifier used on the other listener before
                        let id = format!("c{}", if r.chance(1, 2) { 100 + step } else { step % 6 });
                        if !h.cs.iter().any(|c| c.id == id) {
                            h.connect(r.chance(1, 2), &id, None)?;
                        }
                    }
                    2 | 3 => {
                        h.quiesce()?;
                        let i = r.below(h.cs.len());
                        let subs: Vec<(String, u8)> = (0..r.range(1, 3))
                            .map(|_| {
                                let t = r.pick(&topics).clone();
                                (filter_for(r, &t), OPT)
                            })
                            .collect();
                        h.subscribe(i, &subs)?;
                    }
                    _ => {
                        for _ in 0..r.range(1, 10) {
                            let i = r.below(h.cs.len());
                            let t = r.pick(&topics).clone();
                            let (pl, pp) = (h.payload(r), pub_props(r));
                            h.publish(i, &t, pl, pp)?;
                            rep.count(&format!("published_{}_{}", if strict { "strict" } else { "permissive" }, if h.cs[i].cli.enc { "encrypted" } else { "plain" }), 1);
                        }
                    }
                }
            }
            h.finish()?;
            account(&mut h, rep);
            Ok(())
        },
    );
    finish(rep)
}
/// An encrypted client publishes a burst while a plain connection takes its identifier over (and the
/// other way round): strict mode has to hold for every publication all the same.
fn takeover_leak(b: &Broker, r: &mut Rng, rep: &mut Report) -> Res<()> {
    let mut obs = Cli::connect(b, false, "plain-observer")?;
    obs.sub_ok(&[("secret/#", OPT), ("open/#", OPT)])?;
    let mut obe = Cli::connect(b, true, "encrypted-observer")?;
    obe.sub_ok(&[("secret/#", OPT), ("open/#", OPT)])?;
    let mut ctl = Cli::connect(b, false, "ctl")?;
    for round in 0..25 {
        let mut x = Cli::connect(b, true, "X")?;
        let n = r.range(1, 40);
        let mut w = vec![];
        for k in 0..n {
            let f = x.seal(&encode(&Pkt::publish("secret/t", format!("S{round}.{k}").as_bytes())));
            w.extend_from_slice(&f);
        }
        x.send_raw(&w);
        if r.chance(1, 3) {
            std::thread::sleep(std::time::Duration::from_micros(r.below(1500) as u64));
        }
        // the takeover, publishing in clear right away
        let mut y = Cli::connect(b, false, "X")?;
        y.publish("open/t", format!("P{round}").as_bytes());
        y.sub_ok(&[("echo/y", OPT)])?;
        y.publish("echo/y", b"e");
        y.expect_pub("echo/y", b"e")?;
        if r.chance(1, 2) {
            drop(x);
        } else {
            x.abort();
        }
        ctl.publish("open/mark", format!("M{round}").as_bytes());
        for (o, name) in [(&mut obs, "plain"), (&mut obe, "encrypted")] {
            let mut clear = 0;
            loop {
                match o.recv(limit()) {
                    Ev::Pkt(p, _) if p.ty == PUBLISH && p.payload.starts_with(b"S") => {
                        rep.count(&format!("secret_seen_by_{name}"), 1);
                        if name == "plain" && b.cfg.strict {
                            return bad("an encrypted publication reached a plain client in strict mode", format!("round {round}: {} while a plain connection took the identifier over", short(&p)));
                        }
                    }
                    Ev::Pkt(p, _) if p.topic == "open/t" => clear += 1,
                    Ev::Pkt(p, _) if p.topic == "open/mark" => break,
                    e => return bad("observer is not served", format!("{name}: {}", ev(&e))),
                }
            }
            if clear != 1 {
                return bad("a plain publication is not delivered exactly once", format!("{name} observer got {clear} copies of open/t in round {round}"));
            }
        }
        rep.evaluations += n as u64;
        rep.distinct.insert(refmqtt::rng::fnv(format!("{n} {round} {}", b.cfg.strict).as_bytes()));
    }
    b.check_panics()
}

pub fn s16() -> i32 {
    perturb(20, 60);
    let rep = episodes(
        "S16",
        "a publication is non-trivial by (receivers, topic depth, properties, size class) while No Local, Retain As Published and repeated subscriptions are in play",
        Plan::new(1000, 20000),
        |_, r, rep| {
            let b = Broker::start(Cfg::random(r))?;
            let mut h = Hist::new(&b, "s16");
            let topics: Vec<String> = (0..2).map(|_| topic(r)).collect();
            let filters: Vec<String> = topics.iter().flat_map(|t| (0..2).map(|_| filter_for(r, t)).collect::<Vec<_>>()).collect();
            for i in 0..4 {
                h.connect(crypt(i % 2 == 1), &format!("c{i}"), None)?;
            }
            for _ in 0..50 {
                h.quiesce()?;
                let i = r.below(h.cs.len());
                let subs: Vec<(String, u8)> = (0..r.range(1, 3))
                    .map(|_| {
                        let mut o = OPT | if r.chance(1, 2) { NL } else { 0 } | if r.chance(1, 2) { RAP } else { 0 };
                        if r.chance(1, 10) {
                            o |= 1; // refused, changes nothing
                        }
                        (r.pick(&filters).clone(), o)
                    })
                    .collect();
                h.subscribe(i, &subs)?;
                rep.count("resubscriptions", 1);
                for _ in 0..r.range(1, 6) {
                    let k = if r.chance(1, 2) { i } else { r.below(h.cs.len()) };
                    let t = r.pick(&topics).clone();
                    let pl = h.payload(r);
                    h.publish(k, &t, pl, vec![])?;
                }
                if r.chance(1, 20) {
                    let k = r.below(h.cs.len());
                    let (id, enc) = (h.cs[k].id.clone(), h.cs[k].cli.enc);
                    h.close(k, r)?;
                    // options do not outlive the connection
                    h.connect(enc, &id, None)?;
                }
            }
            h.finish()?;
            account(&mut h, rep);
            Ok(())
        },
    );
    finish(rep)
}
