//! S13 (only authentic messages act) and S14 (segmentation does not matter).
use crate::cli::*;
use crate::env::*;
use crate::hist::*;
use crate::s_gate::{good_connect, unsupported_request, Obs};
use crate::s_hist::finish;
use crate::server::*;
use refmqtt::matcher::matches;
use refmqtt::mutate;
use refmqtt::report::hexs;
use refmqtt::rng::{fnv, Rng};
use refmqtt::wire::*;
use std::collections::BTreeMap;
use std::time::Duration;

fn has(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
/// first and third handshake message and the transport of a correct initiator, against a recording
struct Init {
    hs: Option<snow::HandshakeState>,
}
impl Init {
    fn new(pattern: &str, remote: &[u8; 32], prologue: &[u8]) -> Init {
        let b = snow::Builder::new(pattern.parse().unwrap());
        let kp = b.generate_keypair().unwrap();
        Init { hs: Some(b.local_private_key(&kp.private).remote_public_key(remote).prologue(prologue).build_initiator().unwrap()) }
    }
    fn write(&mut self) -> Vec<u8> {
        let mut buf = [0u8; 400];
        let n = self.hs.as_mut().unwrap().write_message(&[], &mut buf).unwrap();
        buf[..n].to_vec()
    }
    fn read(&mut self, m: &[u8]) -> bool {
        let mut buf = vec![0u8; m.len() + 64];
        self.hs.as_mut().unwrap().read_message(m, &mut buf).is_ok()
    }
}
fn flip(r: &mut Rng, v: &mut [u8]) {
    let i = r.below(v.len());
    v[i] ^= 1 << r.below(8);
}
pub fn s13() -> i32 {
    perturb(10, 50);
    let rep = episodes(
        "S13",
        "an attack is non-trivial by (phase, kind, position, segmentation); distinct ones are counted",
        Plan::new(2500, 60000).threads(8).secs(60.0, 700.0),
        |_, r, rep| {
            let b = Broker::start(Cfg { strict: r.chance(1, 4), ..Cfg::random(r) })?;
            let mut watch = Cli::open(&b, true, "watch")?;
            watch.sniff = Some(vec![]);
            watch.send(&Pkt::connect("watch", 60));
            match watch.recv(limit()) {
                Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => (),
                e => return bad("a supported CONNECT is not answered with a success CONNACK", ev(&e)),
            }
            watch.sub_ok(&[("#", OPT)])?;
            let mut marker = Cli::connect(&b, true, "marker")?;
            let mut secrets: Vec<Vec<u8>> = vec![b"#nz/mark".to_vec()];
            let mut mark = 0;
            // what the watcher received up to a fresh mark
            let mut seen = |watch: &mut Cli, ctx: &str| -> Res<Vec<Pkt>> {
                mark += 1;
                let t = format!("mark-{mark}");
                marker.publish("nz/mark", t.as_bytes());
                let mut v = vec![];
                loop {
                    match watch.recv(limit()) {
                        Ev::Pkt(p, _) if p.topic == "nz/mark" && p.payload == t.as_bytes() => return Ok(v),
                        Ev::Pkt(p, _) => v.push(p),
                        e => return bad("another client is not served any more", format!("{}\n{ctx}", ev(&e))),
                    }
                }
            };
            // a recorded correct session for replaying
            let mut recorded: Vec<u8> = vec![];
            for k in 0..14 {
                let me = format!("nz-client-{k}");
                let secret = format!("SECRET-{:016x}", r.next());
                secrets.push(secret.clone().into_bytes());
                let bye = |c: &mut Cli, n_after_hs: usize, ctx: &str| -> Res<()> {
                    // nothing but handshake bytes may have come
                    let d = limit();
                    let mut got = 0;
                    loop {
                        match c.raw_frame(d) {
                            Some(_) => got += 1,
                            None => break,
                        }
                    }
                    if !c.closed {
                        return bad("a connection with a broken handshake is not closed", format!("{ctx}"));
                    }
                    if got > n_after_hs {
                        return bad("a connection without a handshake gets an answer", format!("{got} messages\n{ctx}"));
                    }
                    Ok(())
                };
                if r.chance(2, 5) {
                    // ---- handshake phase
                    let kind = r.below(11);
                    let names = [
                        "wrong server key", "first message altered", "first message truncated", "third message altered", "third message truncated", "third message left out",
                        "plain MQTT", "framed plain MQTT", "recorded session replayed", "another pattern", "another prologue",
                    ];
                    let ctx = format!("handshake attack: {}; {:?}", names[kind], b.cfg);
                    let mut c = Cli::open_raw(&b, true, "attacker")?;
                    let connect = encode(&Pkt::connect(&me, 60));
                    let leak = encode(&Pkt::publish("nz/leak", secret.as_bytes()));
                    let mut wrong = keys().1;
                    let wrong = if kind == 0 {
                        if r.chance(1, 2) {
                            flip(r, &mut wrong);
                        } else {
                            wrong = snow::Builder::new(NOISE.parse().unwrap()).generate_keypair().unwrap().public[..].try_into().unwrap();
                        }
                        // an invalid curve point may be equivalent in the unused top bit
                        wrong[31] &= 0x7f;
                        wrong
                    } else {
                        wrong
                    };
                    let trueone = {
                        let mut k = keys().1;
                        k[31] &= 0x7f;
                        k
                    };
                    if kind == 0 && wrong == trueone {
                        continue;
                    }
                    let pattern = if kind == 9 { *r.pick(&["Noise_NK_25519_ChaChaPoly_BLAKE2s", "Noise_XK_25519_AESGCM_BLAKE2s", "Noise_XK_25519_ChaChaPoly_SHA256", "Noise_IK_25519_ChaChaPoly_BLAKE2s"]) } else { NOISE };
                    let mut i = Init::new(pattern, &wrong, if kind == 10 { b"prologue" } else { b"" });
                    let mut answers = 0;
                    match kind {
                        6 | 7 => {
                            let mut w = vec![];
                            for f in [&connect, &leak] {
                                w.extend(if kind == 6 { f.clone() } else { noise_frame(f) });
                            }
                            c.send_raw(&w);
                            c.half_close();
                        }
                        8 => {
                            if recorded.is_empty() {
                                continue;
                            }
                            c.send_raw(&recorded);
                            c.half_close();
                            answers = 1;
                        }
                        _ => {
                            let mut m1 = i.write();
                            if kind == 1 {
                                // the top bit of a curve point is ignored by design
                                loop {
                                    let old = m1[31] & 0x80;
                                    flip(r, &mut m1);
                                    if m1[31] & 0x80 == old {
                                        break;
                                    }
                                }
                            }
                            if kind == 2 {
                                let n = r.below(m1.len());
                                m1.truncate(n);
                            }
                            c.send_raw(&noise_frame(&m1));
                            let answer = if matches!(kind, 3 | 4 | 5) {
                                let Some(m2) = c.raw_frame(limit()) else { return bad("a correct first handshake message is not answered", ctx) };
                                if !i.read(&m2) {
                                    return bad("the second handshake message is wrong", ctx);
                                }
                                true
                            } else {
                                false
                            };
                            if answer {
                                let mut m3 = i.write();
                                match kind {
                                    3 => flip(r, &mut m3),
                                    4 => {
                                        let n = r.below(m3.len());
                                        m3.truncate(n);
                                    }
                                    _ => (),
                                }
                                let mut tr = i.hs.take().unwrap().into_transport_mode().unwrap();
                                let mut w = if kind == 5 { vec![] } else { noise_frame(&m3) };
                                for f in [&connect, &leak] {
                                    let mut buf = vec![0u8; f.len() + 64];
                                    let n = tr.write_message(f, &mut buf).unwrap();
                                    w.extend(noise_frame(&buf[..n]));
                                }
                                c.send_raw(&w);
                            } else {
                                // whatever it says: it goes on as if all was well
                                let mut w = vec![];
                                for f in [&connect, &leak] {
                                    w.extend(noise_frame(f));
                                }
                                c.send_raw(&w);
                            }
                        }
                    }
                    bye(&mut c, answers, &ctx)?;
                    let v = seen(&mut watch, &ctx)?;
                    if let Some(p) = v.first() {
                        return bad("a client without a correct handshake has an effect", format!("{}\n{ctx}", short(p)));
                    }
                    let mut names_now = b.clients()?;
                    names_now.retain(|n| n != "watch" && n != "marker");
                    // clients of earlier rounds are closed; their removal may take a moment
                    if names_now.iter().any(|n| *n == me) {
                        return bad("a client without a correct handshake is registered", format!("{names_now:?}\n{ctx}"));
                    }
                    rep.evaluations += 1;
                    rep.count(&format!("handshake: {}", names[kind]), 1);
                    rep.distinct.insert(fnv(format!("h{kind}{}", b.cfg.queue).as_bytes()));
                } else {
                    // ---- transport phase
                    let mut c = Cli::open_raw(&b, true, &me)?;
                    let mut wire: Vec<u8> = vec![];
                    {
                        let mut i = Init::new(NOISE, &keys().1, b"");
                        let f = noise_frame(&i.write());
                        wire.extend_from_slice(&f);
                        c.send_raw(&f);
                        let m2 = match c.raw_frame(limit()) {
                            Some(m) => m,
                            None => return bad("a correct first handshake message is not answered", me),
                        };
                        if !i.read(&m2) {
                            return bad("the second handshake message is wrong", me);
                        }
                        let f = noise_frame(&i.write());
                        wire.extend_from_slice(&f);
                        c.send_raw(&f);
                        c.set_tr(i.hs.take().unwrap().into_transport_mode().unwrap());
                    }
                    let early = r.chance(1, 8); // attack the very first message, before CONNECT
                    let n = r.range(1, 6);
                    let mut frames = vec![];
                    let mut pubs = vec![];
                    let f = c.seal(&encode(&Pkt::connect(&me, 60)));
                    wire.extend_from_slice(&f);
                    if early {
                        frames.push(f);
                    } else {
                        c.send_raw(&f);
                        match c.recv(limit()) {
                            Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => (),
                            e => return bad("a supported CONNECT is not answered with a success CONNACK", ev(&e)),
                        }
                    }
                    for i in 0..n {
                        let len = *r.pick(&[0usize, 5, 100, 3000, 60_000]);
                        let mut pay = secret.clone().into_bytes();
                        pay.extend(r.bytes(len));
                        let p = Pkt::publish(&format!("nz/{secret}/{k}/{i}"), &pay);
                        let f = c.seal(&encode(&p));
                        wire.extend_from_slice(&f);
                        frames.push(f);
                        pubs.push(p);
                    }
                    recorded = wire;
                    let off = early as usize;
                    let at = if early { 0 } else { r.below(n) };
                    // how many of the publications may take effect
                    let kind = r.below(16);
                    let kname = [
                        "altered", "replayed", "swapped", "left out", "truncated", "extended", "plaintext frame", "raw plaintext", "two packets in one message", "trailing bytes", "half a packet per message",
                        "empty message", "huge length", "of another session", "own messages reflected", "none",
                    ][kind];
                    let mut must_close = true;
                    let mut effect = at; // publications before the attacked one
                    let mut last_unsent = false;
                    match kind {
                        0 => {
                            let l = frames[at].len();
                            flip(r, &mut frames[at][4..l]);
                        }
                        1 => {
                            if early {
                                continue;
                            }
                            let f = frames[at].clone();
                            let to = r.range(at + 1, n);
                            frames.insert(to, f);
                            effect = to;
                        }
                        2 => {
                            if at + 1 >= frames.len() {
                                continue;
                            }
                            frames.swap(at, at + 1);
                        }
                        3 => {
                            frames.remove(at);
                            if at >= frames.len() {
                                // nothing follows the gap
                                must_close = false;
                            }
                        }
                        4 => {
                            let l = r.range(0, frames[at].len() - 5);
                            frames[at] = noise_frame(&frames[at][4..4 + l]);
                        }
                        5 => {
                            let x = r.range(1, 20);
                            let e = r.bytes(x);
                            let mut p = frames[at][4..].to_vec();
                            if r.chance(1, 2) {
                                p.extend(e);
                            } else {
                                let mut q = e;
                                q.extend(p);
                                p = q;
                            }
                            frames[at] = noise_frame(&p);
                        }
                        6 => frames[at] = noise_frame(&encode(&if early { Pkt::connect(&me, 60) } else { pubs[at].clone() })),
                        7 => {
                            // as a length it is larger than any message
                            frames[at] = encode(&if early { Pkt::connect(&me, 60) } else { pubs[at].clone() });
                        }
                        8 | 9 | 10 | 11 => {
                            if early {
                                continue;
                            }
                            // authentic, but not exactly one packet: sealed afresh after the good ones
                            let mut m = match kind {
                                8 => {
                                    let mut x = encode(&Pkt::publish("nz/leak", b"1"));
                                    x.extend(encode(&Pkt::publish("nz/leak", b"2")));
                                    vec![x]
                                }
                                9 => {
                                    let mut x = encode(&Pkt::publish("nz/leak", b"1"));
                                    let l = r.range(1, 20);
                                    x.extend(if r.chance(1, 2) { vec![0; l] } else { r.bytes(l) });
                                    vec![x]
                                }
                                10 => {
                                    let x = encode(&Pkt::publish("nz/leak", &r.bytes(40)));
                                    let cut = r.range(1, x.len() - 1);
                                    if r.chance(1, 2) {
                                        // a packet that would be completed by padding
                                        vec![x[..cut].to_vec()]
                                    } else {
                                        vec![x[..cut].to_vec(), x[cut..].to_vec()]
                                    }
                                }
                                _ => {
                                    must_close = false;
                                    vec![vec![]]
                                }
                            };
                            for x in m.drain(..) {
                                let f = c.seal(&x);
                                frames.push(f);
                            }
                            effect = n;
                        }
                        12 => {
                            let x = *r.pick(&[65_536u32, 100_000, 8 * 1024 * 1024 + 1, 0x7fff_ffff, 0xffff_ffff]);
                            frames[at][..4].copy_from_slice(&x.to_be_bytes());
                            // the rest is swallowed by the announced length or refused at once
                            must_close = x > 8 * 1024 * 1024;
                            last_unsent = true;
                        }
                        13 => {
                            let mut o = Cli::open(&b, true, "other")?;
                            frames[at] = o.seal(&encode(&Pkt::publish("nz/leak", b"other session")));
                        }
                        14 => {
                            if early {
                                continue;
                            }
                            // provoke an answer and send it back
                            let f = c.seal(&encode(&Pkt::subscribe(5, &[("nz/none", OPT)])));
                            let mut all: Vec<u8> = frames.concat();
                            all.extend(f);
                            c.send_raw(&all);
                            let Some(m) = c.raw_frame(limit()) else { return bad("a SUBSCRIBE is not acknowledged", me) };
                            frames = vec![noise_frame(&m)];
                            effect = n;
                            // its receiving state missed one message now
                            c.drop_tr();
                        }
                        _ => {
                            effect = n;
                            must_close = false;
                        }
                    }
                    if early && effect > 0 && kind != 15 {
                        effect = 0;
                    }
                    let effect = effect.min(n);
                    let ctx = format!("{kname} at message {at} of {n}, before CONNECT {early}; {:?}", b.cfg);
                    let _ = (off, last_unsent);
                    // wait for the good ones first: what a connection sent just before its end may be lost
                    let seg = *r.pick(&[Seg::Whole, Seg::Whole, Seg::Random]);
                    let good = if kind == 14 { 0 } else { effect.min(frames.len()) };
                    let mut got = vec![];
                    if kind != 14 && !early {
                        let w: Vec<u8> = frames[..good].concat();
                        c.send_seg(&w, seg, r);
                    }
                    if !early {
                        for _ in 0..effect {
                            match watch.recv(limit()) {
                                Ev::Pkt(p, _) => got.push(p),
                                e => return bad("an authentic message has no effect", format!("{}\n{ctx}", ev(&e))),
                            }
                        }
                    }
                    let w: Vec<u8> = if early || kind == 14 { frames.concat() } else { frames[good..].concat() };
                    c.send_seg(&w, seg, r);
                    if kind == 15 && early {
                        for _ in 0..n {
                            match watch.recv(limit()) {
                                Ev::Pkt(p, _) => got.push(p),
                                e => return bad("an authentic message has no effect", format!("{}\n{ctx}", ev(&e))),
                            }
                        }
                    }
                    if must_close {
                        if kind == 14 {
                            c.expect_end("after a message that is not authentic").map_err(|x| Bad { what: x.what, detail: format!("{}\n{ctx}", x.detail) })?;
                        } else {
                            let v = c.expect_closed("after a message that is not authentic").map_err(|x| Bad { what: x.what, detail: format!("{}\n{ctx}", x.detail) })?;
                            if early && v.iter().any(|p| p.ty == CONNACK && p.reason == 0) {
                                return bad("a CONNECT that is not authentic is accepted", ctx);
                            }
                        }
                    }
                    got.extend(seen(&mut watch, &ctx)?);
                    let want = if kind == 15 { n } else { effect };
                    let same = got.len() == want && got.iter().zip(&pubs).all(|(a, b)| a.clone().normalized() == b.clone().normalized());
                    if !same {
                        return bad(
                            "what takes effect is not what was sent authentically",
                            format!("expected the first {want} of {:?}\ngot {:?}\n{ctx}", pubs.iter().map(short).collect::<Vec<_>>(), got.iter().map(short).collect::<Vec<_>>()),
                        );
                    }
                    rep.evaluations += 1;
                    rep.count(&format!("message: {kname}"), 1);
                    rep.distinct.insert(fnv(format!("t{kind}{at}{n}{early}{seg:?}").as_bytes()));
                }
            }
            // the watcher's bytes on the wire hold no content
            let s = watch.sniff.take().unwrap();
            for x in &secrets {
                if has(&s, x) {
                    return bad("packet content travels in clear over the encrypted listener", format!("{}", String::from_utf8_lossy(x)));
                }
            }
            for x in ["nz/mark", "watch", "SECRET"] {
                if has(&s, x.as_bytes()) {
                    return bad("packet content travels in clear over the encrypted listener", x.to_string());
                }
            }
            rep.count("sniffed_bytes", s.len() as u64);
            b.check_panics()
        },
    );
    finish(rep)
}

// ---------------------------------------------------------------- S14
#[derive(Clone, Debug)]
enum End {
    Nothing,
    Unsupported,
    Malformed,
    TooLarge,
}
struct Script {
    connect: Pkt,
    steps: Vec<Pkt>,
    end: End,
    tail: Vec<u8>,
    /// what the client itself receives after its CONNACK
    own: Vec<Pkt>,
    /// what an observer of everything receives
    all: Vec<Pkt>,
}
fn script(r: &mut Rng, id: &str, max: usize, enc_ok: usize) -> Script {
    let mut subs: BTreeMap<String, u8> = BTreeMap::new();
    let mut s = Script { connect: good_connect(r, id), steps: vec![], end: End::Nothing, tail: vec![], own: vec![], all: vec![] };
    s.connect.props.retain(|x| x.0 != 0x27);
    while encode(&s.connect).len() > max {
        s.connect.props.pop();
    }
    let cap = max.min(enc_ok).min(40_000);
    for i in 0..r.range(1, 14) {
        if r.chance(2, 5) {
            let mut list = vec![];
            for _ in 0..r.range(1, 3) {
                let t = format!("seg/{}", topic(r));
                let f = format!("seg/{}", filter_for(r, &t[4..]));
                // several subscriptions with mixed No Local are the broker's choice: none here
                let o = *r.pick(&[OPT, OPT, OPT, 0, OPT | 1]);
                if f.len() < 500 {
                    list.push((f, o));
                }
            }
            if list.is_empty() {
                continue;
            }
            let l: Vec<(&str, u8)> = list.iter().map(|(f, o)| (f.as_str(), *o)).collect();
            let p = Pkt::subscribe(i as u16 + 1, &l);
            if encode(&p).len() > cap {
                continue;
            }
            let mut codes = vec![];
            for (f, o) in &list {
                if granted(f, *o) == Some(true) {
                    subs.insert(f.clone(), *o);
                    codes.push(0);
                } else {
                    codes.push(0x83);
                }
            }
            s.own.push(Pkt { id: p.id, codes, ..Pkt::new(SUBACK) });
            s.steps.push(p);
        } else {
            let n = *r.pick(&[0usize, 1, 10, 100, 118, 119, 120, 121, 1000, 16_370, 39_000]);
            let mut t = format!("seg/{}", topic(r));
            if t.len() > 400 {
                t = "seg/a/b".into();
            }
            let p = Pkt { payload: r.bytes(n), ..Pkt::publish(&t, b"") };
            if encode(&p).len() > cap {
                continue;
            }
            if subs.iter().any(|(f, _)| matches(f, &p.topic)) {
                s.own.push(p.clone());
            }
            s.all.push(p.clone());
            s.steps.push(p);
        }
    }
    match r.below(6) {
        0 => {
            s.end = End::Unsupported;
            while s.tail.is_empty() || s.tail.len() > cap {
                s.tail = encode(&unsupported_request(r, id).0);
            }
            s.own.push(Pkt::new(DISCONNECT));
        }
        1 => {
            s.end = End::Malformed;
            for _ in 0..40 {
                let (m, _) = mutate::mutant(r, &Pkt::subscribe(99, &[("seg/x", OPT)]));
                if matches!(decode(&m, DIALECT), Dec::Bad(..)) && matches!(decode(&m, SPEC), Dec::Bad(..)) {
                    s.tail = m;
                    break;
                }
            }
            if s.tail.is_empty() {
                s.tail = vec![0x00, 0x00];
            }
        }
        2 => {
            s.end = End::TooLarge;
            let p = Pkt::publish("seg/large", &vec![7; max]);
            s.tail = encode(&p);
        }
        _ => (),
    }
    s
}
pub fn s14() -> i32 {
    perturb(10, 50);
    let rep = episodes(
        "S14",
        "a run is non-trivial by (listener, segmentation, pipelining, script shape); distinct ones are counted",
        Plan::new(900, 25000).threads(16).secs(50.0, 700.0),
        |_, r, rep| {
            let max = *r.pick(&[1000u32, 5000, 40_500, 65_536]);
            let b = Broker::start(Cfg { max, ..Cfg::random(r) })?;
            let mut o = Obs::new(&b, r)?;
            for k in 0..3 {
                let s0 = script(r, "seg-client", max as usize, 65_519);
                for run in 0..4 {
                    let enc = crypt(r.chance(1, 2));
                    if enc && s0.tail.len() > 65_519 {
                        continue;
                    }
                    // 0: CONNECT first, then wait; 1: all behind CONNECT; 2 (Noise): all behind the handshake
                    let pipe = r.range(0, if enc { 2 } else { 1 });
                    let seg = *r.pick(&[Seg::Whole, Seg::EachByte, Seg::Random, Seg::Slow]);
                    let ctx = format!(
                        "script {k} run {run}: encrypted {enc}, pipelining {pipe}, {seg:?}, end {:?} ({}), {:?}\nsteps {:?}",
                        s0.end,
                        hexs(&s0.tail),
                        b.cfg,
                        s0.steps.iter().map(|p| format!("{} {:?}", short(p), p.filters)).collect::<Vec<_>>()
                    );
                    let more = |x: Bad| Bad { what: x.what, detail: format!("{}\n{ctx}", x.detail) };
                    let mut c = Cli::open_raw(&b, enc, "seg-client")?;
                    let mut w: Vec<u8> = vec![];
                    if enc {
                        let mut i = Init::new(NOISE, &keys().1, b"");
                        let f = noise_frame(&i.write());
                        c.send_seg(&f, seg, r);
                        let Some(m2) = c.raw_frame(limit()) else { return bad("a correct first handshake message is not answered", ctx) };
                        if !i.read(&m2) {
                            return bad("the second handshake message is wrong", ctx);
                        }
                        let f = noise_frame(&i.write());
                        if pipe == 2 {
                            w.extend(f);
                        } else {
                            c.send_seg(&f, seg, r);
                        }
                        c.set_tr(i.hs.take().unwrap().into_transport_mode().unwrap());
                    }
                    let f = c.seal(&encode(&s0.connect));
                    w.extend(f);
                    if pipe == 0 {
                        c.send_seg(&w, seg, r);
                        w.clear();
                        match c.recv(limit()) {
                            Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => (),
                            e => return bad("a supported CONNECT is not answered with a success CONNACK", format!("{}\n{ctx}", ev(&e))),
                        }
                    }
                    for p in &s0.steps {
                        let f = c.seal(&encode(p));
                        w.extend(f);
                    }
                    // a malformed or oversized packet ends the connection at once and what is still
                    // queued then may be lost, so it follows when the rest is through
                    let late = matches!(s0.end, End::Malformed | End::TooLarge);
                    let tail = if s0.tail.is_empty() { vec![] } else { c.seal(&s0.tail) };
                    if !late {
                        w.extend_from_slice(&tail);
                    }
                    // long byte-wise runs cost time
                    let seg2 = if w.len() > 6000 && matches!(seg, Seg::EachByte) { Seg::Random } else { seg };
                    if !c.send_seg(&w, seg2, r) && s0.tail.is_empty() {
                        return bad("the broker closed the connection of a well-behaved client", ctx);
                    }
                    if pipe > 0 {
                        match c.recv(limit()) {
                            Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => (),
                            e => return bad("a supported CONNECT is not answered with a success CONNACK", format!("{}\n{ctx}", ev(&e))),
                        }
                    }
                    for (i, want) in s0.own.iter().enumerate() {
                        let ok = match c.recv(limit()) {
                            Ev::Pkt(g, _) if g.ty == want.ty => match g.ty {
                                SUBACK => g.id == want.id && g.codes.len() == want.codes.len() && g.codes.iter().zip(&want.codes).all(|(a, b)| (*a < 0x80) == (*b < 0x80)),
                                DISCONNECT => g.reason >= 0x80,
                                _ => g.normalized() == want.clone().normalized(),
                            },
                            e => {
                                return bad("the reactions depend on the segmentation", format!("reaction {i}: expected {}, got {}\n{ctx}", short(want), ev(&e)));
                            }
                        };
                        if !ok {
                            return bad("the reactions depend on the segmentation", format!("reaction {i}: expected {}, got another packet of that type\n{ctx}", short(want)));
                        }
                    }
                    // wait until the observer has everything
                    let mut got = vec![];
                    while got.len() < s0.all.len() {
                        match o.sub.recv(limit()) {
                            Ev::Pkt(p, _) => got.push(p),
                            e => return bad("the deliveries depend on the segmentation", format!("{} of {} arrived, then {}\n{ctx}", got.len(), s0.all.len(), ev(&e))),
                        }
                    }
                    if late {
                        c.send_seg(&tail, if tail.len() > 3000 { Seg::Random } else { seg }, r);
                    }
                    if !s0.tail.is_empty() {
                        let v = c.expect_closed("at the end of the script").map_err(more)?;
                        if v.iter().any(|p| p.ty != DISCONNECT) {
                            return bad("the reactions depend on the segmentation", format!("more than expected: {:?}\n{ctx}", v.iter().map(short).collect::<Vec<_>>()));
                        }
                    } else {
                        c.sub_ok(&[("end", OPT)]).map_err(more)?;
                    }
                    got.extend(o.until_mark()?);
                    let same = got.len() == s0.all.len() && got.iter().zip(&s0.all).all(|(a, b)| a.clone().normalized() == b.clone().normalized());
                    if !same {
                        return bad(
                            "the deliveries depend on the segmentation",
                            format!("expected {:?}\ngot {:?}\n{ctx}", s0.all.iter().map(short).collect::<Vec<_>>(), got.iter().map(short).collect::<Vec<_>>()),
                        );
                    }
                    drop(c);
                    if !wait(limit(), || matches!(b.has_client("seg-client"), Ok(false))) {
                        return bad("a client whose connection ended stays registered", ctx);
                    }
                    rep.evaluations += 1;
                    rep.count(&format!("segmentation {seg:?} encrypted {enc} pipelining {pipe}"), 1);
                    rep.count("packets", s0.steps.len() as u64);
                    rep.distinct.insert(fnv(format!("{enc}{seg:?}{pipe}{:?}{:?}", s0.end, s0.steps.iter().map(|p| (p.ty, p.payload.len())).collect::<Vec<_>>()).as_bytes()));
                }
            }
            std::thread::sleep(Duration::from_millis(0));
            b.check_panics()
        },
    );
    finish(rep)
}
