//! D01: the shipped `apiformes-server` program, run as a process.
use crate::cli::*;
use crate::env::*;
use crate::s_gate::{check_connack, good_connect, Obs};
use crate::s_hist::finish;
use crate::s_host::attack;
use crate::server::*;
use refmqtt::report::*;
use refmqtt::rng::{fnv, Rng};
use refmqtt::wire::*;
use std::fs::File;
use std::io::Read;
use std::net::{Ipv4Addr, SocketAddr, TcpStream};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// the public key published next to the program's configuration
const KEY: [u8; 32] = [
    180, 132, 40, 246, 52, 36, 9, 93, 224, 18, 51, 123, 188, 226, 131, 145, 196, 93, 24, 112, 227, 133, 8, 199, 229, 139, 2, 248, 5, 115, 136, 37,
];
const KEEP_ALIVE: u16 = 50;
const MAX: u32 = 65536;

#[derive(Clone, Debug)]
struct How {
    log: Option<&'static str>,
    /// what becomes of its output
    out: &'static str,
    cpus: usize,
    /// limit of open descriptors
    nofile: Option<u64>,
    /// how many times as fast its clock runs
    warp: u32,
}
struct Prog {
    child: Child,
    b: Broker,
    errf: String,
    how: How,
}
fn addr(ip: Ipv4Addr, port: u16) -> SocketAddr {
    SocketAddr::from((ip, port))
}
struct Tools<'a> {
    exe: &'a str,
    bm: &'a str,
    shim: &'a str,
}
impl Prog {
    fn start(t: &Tools, how: How) -> Res<Prog> {
        let home = Ipv4Addr::LOCALHOST;
        let errf = format!("{}/build/d01-stderr-{}", verif_root(), std::process::id());
        for attempt in 0.. {
            // somebody else's program on these ports?
            let t0 = Instant::now();
            while [1883u16, 8883].iter().any(|p| TcpStream::connect(addr(home, *p)).is_ok()) {
                if t0.elapsed() > Duration::from_secs(90) {
                    eprintln!("the ports of the server program are in use");
                    std::process::exit(3);
                }
                std::thread::sleep(Duration::from_millis(200));
            }
            let mut c = Command::new(t.exe);
            c.env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").stdin(Stdio::null());
            if let Some(l) = how.log {
                c.env("RUST_LOG", l);
            }
            if how.warp > 1 {
                c.env("LD_PRELOAD", t.shim).env("WARP", how.warp.to_string());
            }
            c.stderr(File::create(&errf).unwrap());
            match how.out {
                "null" => c.stdout(Stdio::null()),
                "full" => c.stdout(File::options().write(true).open("/dev/full").unwrap()),
                _ => c.stdout(Stdio::piped()),
            };
            let (n, cpus) = (how.nofile, how.cpus);
            unsafe {
                c.pre_exec(move || {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    if let Some(n) = n {
                        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                    }
                    if cpus > 0 {
                        let mut now: libc::cpu_set_t = std::mem::zeroed();
                        libc::sched_getaffinity(0, std::mem::size_of_val(&now), &mut now);
                        let mut set: libc::cpu_set_t = std::mem::zeroed();
                        let mut k = 0;
                        for i in 0..libc::CPU_SETSIZE as usize {
                            if libc::CPU_ISSET(i, &now) && k < cpus {
                                libc::CPU_SET(i, &mut set);
                                k += 1;
                            }
                        }
                        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                    }
                    Ok(())
                });
            }
            let mut child = c.spawn().expect("start of the server program");
            match (how.out, child.stdout.take()) {
                // read by somebody
                ("read", Some(mut o)) => drop(std::thread::spawn(move || {
                    let mut b = vec![0u8; 1 << 16];
                    while matches!(o.read(&mut b), Ok(n) if n > 0) {}
                })),
                // nobody there to read it
                _ => (),
            }
            let b = Broker::external(Cfg { keep_alive: KEEP_ALIVE, max: MAX, strict: true, ..Cfg::default() }, addr(home, 1883), addr(home, 8883), KEY);
            let mut p = Prog { child, b, errf: errf.clone(), how: how.clone() };
            let up = wait(limit(), || p.child.try_wait().unwrap().is_some() || [1883u16, 8883].iter().all(|x| TcpStream::connect(addr(home, *x)).is_ok()));
            let err = std::fs::read_to_string(&errf).unwrap_or_default();
            if err.contains("in use") && attempt < 50 {
                std::thread::sleep(Duration::from_millis(300));
                continue;
            }
            p.check("starting")?;
            if !up {
                return bad("the server program does not listen on ports 1883 and 8883", format!("{how:?}\nstderr {err}"));
            }
            return Ok(p);
        }
        unreachable!()
    }
    /// still there, and no task of it has panicked
    fn check(&mut self, when: &str) -> Res<()> {
        let err = std::fs::read_to_string(&self.errf).unwrap_or_default();
        let err: String = err.chars().take(3000).collect();
        if let Some(s) = self.child.try_wait().unwrap() {
            return bad("the server program ends by itself", format!("{when}: code {:?} signal {:?}, {:?}\nstderr {err}", s.code(), s.signal(), self.how));
        }
        if err.contains("panicked at") {
            return bad("a task of the server program panicked", format!("{when}: {:?}\nstderr {err}", self.how));
        }
        Ok(())
    }
    fn signal(&self, s: i32) {
        unsafe {
            libc::kill(self.child.id() as i32, s);
        }
    }
}
impl Drop for Prog {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.errf);
    }
}
fn ctx(x: Bad, p: &Prog, w: &str) -> Bad {
    Bad { what: x.what, detail: format!("{}\n{w}; {:?}", x.detail, p.how) }
}
/// what is published about it: addresses, key, announcements, limits, permeability
fn published(p: &Prog, r: &mut Rng, rep: &mut Report) -> Res<()> {
    let b = &p.b;
    let tag = r.below(1 << 30);
    let mut got = vec![];
    for (k, enc) in [false, true].into_iter().enumerate() {
        // on every interface
        let ip = Ipv4Addr::new(127, r.range(0, 250) as u8, r.range(0, 250) as u8, r.range(1, 250) as u8);
        let b2 = Broker::external(b.cfg.clone(), addr(ip, 1883), addr(ip, 8883), b.key);
        let q = good_connect(r, &format!("pub-{tag}-{k}"));
        let (mut c, ack) = Cli::connect_with(&b2, enc, &q)?;
        c.announced = None;
        check_connack(b, &q, &ack, enc)?;
        let m = match q.prop(0x27) {
            Some(V::U32(m)) => *m as usize,
            _ => usize::MAX,
        };
        c.sub_ok(&[(&format!("t{tag}/#"), OPT), ("$SYS/#", OPT)])?;
        got.push((c, m));
        rep.count(if enc { "published_encrypted" } else { "published_plain" }, 1);
    }
    // strict
    let (mut plain, mp) = got.remove(0);
    let (mut enc, me) = got.remove(0);
    let t = format!("t{tag}/x");
    for i in 0..8 {
        let m = format!("{i}");
        if i % 2 == 0 {
            plain.publish(&t, m.as_bytes());
            plain.expect_pub(&t, m.as_bytes())?;
        } else {
            enc.publish(&t, m.as_bytes());
        }
        enc.expect_pub(&t, m.as_bytes()).map_err(|x| Bad { what: if i % 2 == 1 { "an encrypted publication does not reach an encrypted subscriber".into() } else { x.what }, ..x })?;
    }
    // only under the published key
    let mut other = KEY;
    other[r.below(32)] ^= 1 << r.below(7);
    let mut c = Cli::open_raw(b, true, "wrong key")?;
    if c.handshake(&other)? {
        return bad("a handshake with another key than the published one completes", format!("{other:?}"));
    }
    // size limit: what is announced goes through, one byte more does not
    let over = 2 + t.len() + 1;
    for extra in [0usize, 1] {
        let body = r.bytes(MAX as usize - 4 - over + extra);
        let w = encode(&Pkt::publish(&t, &body));
        assert_eq!(w.len(), MAX as usize + extra);
        let mut c = Cli::connect(b, false, &format!("big-{tag}-{extra}"))?;
        c.send_for(&w, 20.0);
        if extra == 0 {
            if mp >= w.len() {
                plain.expect_pub(&t, &body)?;
            }
            // on an encrypted connection it does not fit into a message
            c.publish(&t, b"after");
            if me > 100 {
                enc.expect_pub(&t, b"after")?;
            }
            plain.expect_pub(&t, b"after")?;
        } else {
            c.expect_end("after a packet that is too large")?;
            plain.publish(&t, b"fin");
            plain.expect_pub(&t, b"fin")?;
        }
    }
    rep.evaluations += 1;
    Ok(())
}
/// hostile clients, with bystanders that must be served
fn hostile(p: &mut Prog, o: &mut Obs, r: &mut Rng, rep: &mut Report) -> Res<()> {
    let seeds: Vec<u64> = (0..r.range(1, 7)).map(|_| r.next()).collect();
    let done: Vec<Res<String>> = std::thread::scope(|s| {
        let b = &p.b;
        let hs: Vec<_> = seeds.iter().enumerate().map(|(k, x)| s.spawn(move || attack(b, &mut Rng::new(*x), k))).collect();
        for k in 0..5u8 {
            o.publish("by/all", &[k]);
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut what = vec![];
    for d in done {
        what.push(d?);
    }
    p.check(&format!("{what:?}"))?;
    let v = o.until_mark().map_err(|x| ctx(x, p, &format!("attacks {what:?}")))?;
    let mine: Vec<u8> = v.iter().filter(|m| m.topic == "by/all").filter_map(|m| m.payload.first().copied()).collect();
    if mine != [0, 1, 2, 3, 4] {
        return bad("another client's publications are lost or reordered", format!("{mine:?}\nattacks {what:?}; {:?}", p.how));
    }
    for w in what {
        rep.evaluations += 1;
        rep.distinct.insert(fnv(format!("{w} {:?} {} {}", p.how.log, p.how.out, p.how.cpus).as_bytes()));
        rep.count(&format!("attack: {}", w.split(',').next().unwrap()), 1);
    }
    Ok(())
}
/// the process stands still for a while
fn paused(p: &mut Prog, r: &mut Rng, rep: &mut Report) -> Res<()> {
    let tag = r.below(1 << 30);
    let enc = r.chance(1, 3);
    let mut s = Cli::connect(&p.b, enc, &format!("ps-{tag}"))?;
    s.sub_ok(&[(&format!("p{tag}/+"), OPT)])?;
    let mut c = Cli::connect(&p.b, enc && r.chance(1, 2), &format!("pp-{tag}"))?;
    let n = r.range(10, 400);
    let at = r.below(n);
    let mut late = None;
    for i in 0..n {
        if i == at {
            p.signal(libc::SIGSTOP);
            let mut l = Cli::open_raw(&p.b, false, "connects meanwhile")?;
            l.send(&Pkt::connect(&format!("late-{tag}"), 60));
            late = Some(l);
        }
        c.publish(&format!("p{tag}/x"), format!("{i}").as_bytes());
    }
    std::thread::sleep(Duration::from_millis(r.range(10, 300) as u64));
    p.signal(libc::SIGCONT);
    for i in 0..n {
        s.expect_pub(&format!("p{tag}/x"), format!("{i}").as_bytes()).map_err(|x| ctx(x, p, &format!("{n} messages, paused at {at}")))?;
    }
    match late.unwrap().recv(limit()) {
        Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => (),
        e => return bad("a client that connected while the process stood still is not answered", ev(&e)),
    }
    rep.evaluations += 1;
    rep.count("paused_messages", n as u64);
    rep.distinct.insert(fnv(format!("paused {enc} {}", n / 50).as_bytes()));
    Ok(())
}
/// the shipped benchmark tool against it
fn bench(p: &mut Prog, t: &Tools, r: &mut Rng, rep: &mut Report) -> Res<()> {
    let (s, q, m) = (r.range(1, 8), r.range(1, 8), r.range(1, 60));
    let topic = format!("bm/{}", r.below(1 << 30));
    let mut o = Cli::connect(&p.b, false, &format!("bm-{topic}"))?;
    o.sub_ok(&[(&topic, OPT)])?;
    let mut c = Command::new(t.bm);
    c.args(["-e", "127.0.0.1:1883", "-s", &s.to_string(), "-p", &q.to_string(), "-m", &m.to_string(), "-t", &topic]);
    if r.chance(1, 2) {
        c.arg("--no-delay");
    } else {
        c.args(["-c", *r.pick(&["10us", "1ms"])]);
    }
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("start of the benchmark tool");
    let w = format!("{s} subscribers, {q} publishers, {m} messages each");
    let mut st = None;
    let ended = wait(Deadline::new(40.0), || {
        st = ch.try_wait().unwrap();
        st.is_some()
    });
    let _ = ch.kill();
    let _ = ch.wait();
    let mut e = String::new();
    let _ = ch.stderr.take().unwrap().read_to_string(&mut e);
    p.check(&w)?;
    if !ended || !st.map_or(false, |x| x.success()) {
        return bad("the benchmark tool does not complete against the server program", format!("{w}: {st:?} {e}; {:?}", p.how));
    }
    for i in 0..q * m {
        match o.recv(limit()) {
            Ev::Pkt(k, _) if k.ty == PUBLISH && k.topic == topic => (),
            x => return bad("messages of the benchmark tool do not arrive", format!("{w}: message {i}: {}", ev(&x))),
        }
    }
    o.publish(&topic, b"that was all");
    o.expect_pub(&topic, b"that was all").map_err(|x| ctx(x, p, &w))?;
    rep.evaluations += 1;
    rep.count("benchmark_messages", (s * q * m) as u64);
    rep.distinct.insert(fnv(format!("bench {s} {q} {}", m / 10).as_bytes()));
    Ok(())
}
/// it runs out of descriptors, and gets them back
fn descriptors(t: &Tools, how: How, r: &mut Rng, rep: &mut Report) -> Res<()> {
    let n = how.nofile.unwrap() as usize;
    let mut p = Prog::start(t, how)?;
    let mut o = Obs::new(&p.b, r)?;
    for round in 0..3 {
        let mut all = vec![];
        for i in 0..n + r.range(0, n) {
            let enc = r.chance(1, 3);
            // completed by the system, whether or not the program takes it
            let mut c = Cli::open_raw(&p.b, enc, "crowd")?;
            if !enc && r.chance(2, 3) {
                c.send(&Pkt::connect(&format!("crowd-{round}-{i}"), 60));
            }
            all.push((enc, c));
        }
        for _ in 0..4 {
            o.publish("fd/x", b"1");
            o.until_mark().map_err(|x| ctx(x, &p, &format!("{} connections wait", all.len())))?;
            std::thread::sleep(Duration::from_millis(r.range(0, 60) as u64));
        }
        p.check("out of descriptors")?;
        // some of them leave, those that wait are taken then
        let k = r.range(0, all.len());
        r.shuffle(&mut all);
        let rest = all.split_off(k);
        for (_, c) in all {
            if r.chance(1, 2) {
                c.abort();
            }
        }
        if rest.len() < n / 3 {
            let mut c = Cli::connect(&p.b, r.chance(1, 2), &format!("between-{round}")).map_err(|x| ctx(x, &p, "others have left"))?;
            c.sub_ok(&[("between", OPT)])?;
        }
        drop(rest);
        o.until_mark().map_err(|x| ctx(x, &p, "all of them have left"))?;
        for enc in [false, true] {
            let mut c = Cli::connect(&p.b, enc, &format!("after-{round}")).map_err(|x| ctx(x, &p, "after the crowd has left"))?;
            c.sub_ok(&[("after/x", OPT)])?;
            c.publish("after/x", b"2");
            c.expect_pub("after/x", b"2").map_err(|x| ctx(x, &p, "after the crowd has left"))?;
        }
        o.until_mark().map_err(|x| ctx(x, &p, "after the crowd"))?;
        p.check("after the crowd has left")?;
        rep.evaluations += 1;
        rep.count("descriptor_rounds", 1);
        rep.distinct.insert(fnv(format!("fd {n} {k} {} {}", p.how.cpus, p.how.out).as_bytes()));
    }
    Ok(())
}
/// unfinished connections are closed when the keep alive is over, and not before
fn unfinished(t: &Tools, how: How, r: &mut Rng, rep: &mut Report) -> Res<()> {
    let w = how.warp as f64;
    let p = Prog::start(t, how)?;
    let t0 = Instant::now();
    let mut cs = vec![];
    for i in 0..8 {
        let enc = i % 2 == 1;
        let mut c = if enc && i % 4 == 1 { Cli::open_raw(&p.b, true, "idle") } else { Cli::open(&p.b, enc, "idle") }?;
        c.name = format!("unfinished {i} enc {enc}");
        if i % 3 == 0 {
            c.send_raw(&[0x10]);
        }
        cs.push(c);
    }
    // those that have finished stay
    let mut o = Obs::new(&p.b, r)?;
    let early = Duration::from_secs_f64((KEEP_ALIVE as f64 - 1.0) / w);
    // the handshake may take three times as long
    let d = Deadline::new(KEEP_ALIVE as f64 * 4.4 / w + 5.0);
    for mut c in cs {
        loop {
            match c.recv(Deadline::new(0.0)) {
                Ev::Closed | Ev::Garbage(_) if c.closed => {
                    if t0.elapsed() < early {
                        return bad("an unfinished connection is closed before the keep alive is over", format!("{} after {:?}, clock {w} times as fast", c.name, t0.elapsed()));
                    }
                    break;
                }
                Ev::Timeout if !d.over() => std::thread::sleep(Duration::from_millis(5)),
                e => return bad("an unfinished connection is not closed when the keep alive is over", format!("{} {} after {:?}, clock {w} times as fast", c.name, ev(&e), t0.elapsed())),
            }
        }
        rep.evaluations += 1;
    }
    o.until_mark()?;
    rep.count("unfinished_connections", 8);
    Ok(())
}
/// uptime of hours
fn uptime(t: &Tools, how: How, secs: f64, r: &mut Rng, rep: &mut Report) -> Res<()> {
    let w = how.warp;
    let mut p = Prog::start(t, how)?;
    // with so fast a clock a connect may take too long
    let retry = |b: &Broker, enc: bool, id: &str| -> Res<Cli> {
        let d = limit();
        loop {
            match Cli::connect(b, enc, id) {
                Ok(c) => return Ok(c),
                Err(x) if d.over() => return Err(x),
                Err(_) => std::thread::sleep(Duration::from_millis(10)),
            }
        }
    };
    let mut s = retry(&p.b, false, "up-sub")?;
    s.sub_ok(&[("up/+", OPT)])?;
    let mut c = retry(&p.b, false, "up-src")?;
    let t0 = Instant::now();
    let mut k = 0u32;
    while t0.elapsed().as_secs_f64() < secs {
        let m = format!("{k}");
        let min = t0.elapsed().as_secs_f64() * w as f64 / 60.0;
        let at = format!("after {min:.0} minutes of its clock");
        c.publish("up/x", m.as_bytes());
        p.check(&at)?;
        s.expect_pub("up/x", m.as_bytes()).map_err(|x| ctx(x, &p, &at))?;
        if k % 20 == 0 {
            let enc = k % 40 == 0;
            let mut n = retry(&p.b, enc, &format!("up-{k}")).map_err(|x| ctx(x, &p, &at))?;
            n.sub_ok(&[("upn/x", OPT)]).map_err(|x| ctx(x, &p, &at))?;
            n.publish("upn/x", b"n");
            n.expect_pub("upn/x", b"n").map_err(|x| ctx(x, &p, &at))?;
        }
        k += 1;
        std::thread::sleep(Duration::from_millis(r.range(1, 40) as u64));
    }
    p.check("at the end")?;
    rep.evaluations += 1;
    rep.count("minutes_of_its_clock", (secs * w as f64 / 60.0) as u64);
    rep.count("uptime_messages", k as u64);
    Ok(())
}
pub fn d01(a: &[String]) -> i32 {
    let t = Tools { exe: &a[0], bm: &a[1], shim: &a[2] };
    let rep = episodes(
        "D01",
        "an action on the running program is non-trivial by (what was done to it, log level, output, processors); distinct ones are counted",
        // one at a time: the ports are fixed
        Plan::new(26, 400).threads(1).secs(150.0, 1500.0),
        |e, r, rep| {
            let log = *r.pick(&[None, Some("trace"), Some("info"), Some("debug"), Some("error"), Some("warn,apiformes_server_lib=trace"), Some(""), Some("=,x=7"), Some("off")]);
            let out = *r.pick(&["null", "null", "read", "gone", "full"]);
            let cpus = *r.pick(&[0usize, 0, 1, 2]);
            let how = How { log, out, cpus, nofile: None, warp: 1 };
            rep.sample(format!("{how:?}"));
            match e {
                0 => return unfinished(&t, How { warp: 15, ..how }, r, rep),
                1 => return uptime(&t, How { warp: 150, ..how }, if thorough() { 120.0 } else { 25.0 }, r, rep),
                _ => (),
            }
            if e % 4 == 3 {
                let out = if how.out == "full" { "full" } else { "null" };
                return descriptors(&t, How { nofile: Some(*r.pick(&[24, 32, 48, 100])), out, ..how }, r, rep);
            }
            let mut p = Prog::start(&t, how)?;
            let mut o = Obs::new(&p.b, r)?;
            for _ in 0..6 {
                let k = r.below(5);
                match k {
                    0 => published(&p, r, rep).map_err(|x| ctx(x, &p, ""))?,
                    1 | 2 => hostile(&mut p, &mut o, r, rep)?,
                    3 => paused(&mut p, r, rep)?,
                    _ => bench(&mut p, &t, r, rep)?,
                }
                rep.count(["published", "hostile", "hostile", "paused", "benchmark"][k], 1);
                let _ = o.until_mark().map_err(|x| ctx(x, &p, ""))?;
                p.check("at the end")?;
            }
            Ok(())
        },
    );
    finish(rep)
}
