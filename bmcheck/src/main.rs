//! B01 (what a benchmark run does) and B02 (what it reports): the real tool against a broker stand-in.
mod mock;
use mock::*;
use refmqtt::report::*;
use refmqtt::rng::{fnv, Rng};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Delay {
    Default,
    None,
    Const(String),
    MinMax(String),
}
struct Bad(String, String);
type Res = Result<(), Bad>;
fn bad(w: impl Into<String>, d: impl Into<String>) -> Res {
    Err(Bad(w.into(), d.into()))
}
/// a delay of so many µs in one of the units that can express it
fn unit(us: u64, r: &mut Rng) -> String {
    let mut v = vec![format!("{us}us"), format!("{us}µs")];
    if us % 1000 == 0 {
        v.push(format!("{}ms", us / 1000));
        v.push(format!("{}ms", us / 1000));
    }
    if us % 1_000_000 == 0 {
        for _ in 0..4 {
            v.push(format!("{}s", us / 1_000_000));
        }
    }
    r.pick(&v).clone()
}
fn args(sc: &Script, d: &Delay, r: &mut Rng) -> Vec<String> {
    let mut a: Vec<Vec<String>> = vec![];
    let mut put = |r: &mut Rng, s: &str, l: &str, v: String| {
        a.push(match r.below(3) {
            0 => vec![s.to_string(), v],
            1 => vec![l.to_string(), v],
            _ => vec![format!("{l}={v}")],
        })
    };
    put(r, "-s", "--subs", sc.subs.to_string());
    put(r, "-p", "--pubs", sc.pubs.to_string());
    put(r, "-m", "--messages", sc.msgs.to_string());
    if sc.topic != DEFAULT_TOPIC {
        put(r, "-t", "--topic", sc.topic.clone());
    }
    match d {
        Delay::Default => (),
        Delay::None => a.push(vec!["--no-delay".into()]),
        Delay::Const(s) => put(r, "-c", "--const-delay", s.clone()),
        Delay::MinMax(s) => a.push(vec!["--min-max-delay".into(), s.clone()]),
    }
    r.shuffle(&mut a);
    a.concat()
}
const DEFAULT_TOPIC: &str = "/benchmark/stress_test";
fn script(r: &mut Rng) -> Script {
    Script {
        subs: r.range(1, 5),
        pubs: r.range(1, 5),
        msgs: *r.pick(&[1usize, 2, 3, 7, 20, 60, 150]),
        topic: r.pick(&[DEFAULT_TOPIC, "t", "a/b c/d", "/", "ü/中/😀", "$x/y", "a//b"]).to_string(),
        fault: None,
        seg: r.below(3),
        pause: *r.pick(&[0u64, 0, 300, 2000]),
        suback: (0..5).map(|_| *r.pick(&[0u64, 0, 0, 5, 60])).collect(),
        connack_props: r.chance(1, 2),
        hold: None,
        hold_last: if r.chance(2, 3) { Some(r.below(120) as u64) } else { None },
        never_last: false,
        stall: vec![],
        small_window: false,
        at: *r.pick(&[At::V4, At::V4, At::V6, At::Name]),
        warp: 1,
        seed: r.next(),
    }
}
fn describe(sc: &Script, a: &[String], o: &Outcome) -> String {
    let sc = Script { hold: None, topic: sc.topic.chars().take(60).collect(), ..sc.clone() };
    let a: Vec<String> = a.iter().map(|s| s.chars().take(60).collect()).collect();
    format!(
        "arguments {a:?}\nscript {sc:?}\nexit {:?} timeout {} after {:?}; connections {}, publications per publisher {:?}, delivered per subscriber {:?}\nerrors seen by the broker {:?}\nstdout: {}\nstderr: {}",
        o.code, o.timeout, o.end - o.start, o.st.accepted,
        o.st.pubs.iter().map(|p| p.at.len()).collect::<Vec<_>>(),
        o.st.subs.iter().map(|p| p.sent.len()).collect::<Vec<_>>(),
        o.st.errors, o.out.chars().take(1500).collect::<String>(), o.err.chars().take(800).collect::<String>()
    )
}
/// a run without faults has to go exactly like this
fn complete(sc: &Script, a: &[String], o: &Outcome) -> Res {
    let d = || describe(sc, a, o);
    if let Some(e) = o.st.errors.first() {
        return bad(strip(e), d());
    }
    if o.timeout {
        let all = o.st.subs.len() == sc.subs && o.st.subs.iter().all(|s| s.done.is_some());
        return bad(if all { "the tool does not end although everything was delivered" } else { "the run never completes" }, d());
    }
    if o.code != Some(0) {
        return bad("a run against a conforming broker fails", d());
    }
    if o.st.accepted != sc.subs + sc.pubs || o.st.subs.len() != sc.subs || o.st.pubs.len() != sc.pubs {
        return bad("wrong number of connections", d());
    }
    if o.st.pubs.iter().any(|p| p.at.len() != sc.msgs) {
        return bad("a publisher does not send the requested number of publications", d());
    }
    if o.st.subs.iter().any(|s| s.done.is_none()) {
        return bad("the tool ends before every subscriber has received everything", d());
    }
    Ok(())
}
/// numbers out of an error so that equal failures read the same
fn strip(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(160).collect()
}
/// Something that depends on timing counts only when it shows three times in a row.
fn thrice(mut f: impl FnMut() -> Res) -> Res {
    let mut last = Ok(());
    for k in 0..3 {
        last = f();
        if last.is_ok() {
            return last;
        }
        std::thread::sleep(Duration::from_millis(150 * k));
    }
    last
}

fn b01(exe: &str, i: usize, r: &mut Rng, rep: &mut Report) -> Res {
    let mut sc = script(r);
    let us = *r.pick(&[0u64, 1, 50, 300, 1000, 2000]);
    let mut d = match r.below(5) {
        0 | 1 => Delay::None,
        2 => Delay::Default,
        3 => Delay::Const(unit(us, r)),
        _ => {
            let hi = us + *r.pick(&[0u64, 1, 1000, 3000]);
            Delay::MinMax(format!("{}:{}", unit(us, r), unit(hi, r)))
        }
    };
    match i % 4 {
        // ordinary runs
        0 | 1 => {
            if r.chance(1, 6) {
                // publishers that have to wait for the broker
                sc.topic = format!("long/{}", "x".repeat(r.range(3000, 30_000)));
                sc.msgs = r.range(50, 200);
                sc.subs = r.range(1, 2);
                sc.seg = 0;
                sc.small_window = true;
                sc.stall = (0..sc.pubs).map(|_| r.below(300) as u64).collect();
                d = Delay::None;
                rep.count("runs_with_stalled_publishers", 1);
            }
            let mut limit = 30.0;
            if i % 40 == 4 {
                // far more of something than usual
                sc.topic = "x/y".into();
                (sc.subs, sc.pubs, sc.msgs) = [(1, 1, 66_000), (300, 2, 2), (2, 300, 2), (1, 12, 6000), (1, 1030, 1), (1030, 1, 1)][i / 40 % 6];
                sc.seg = 0;
                d = Delay::None;
                limit = 90.0;
                rep.count("large_runs", 1);
            }
            if i % 20 == 5 {
                // publications about as large as topics make them
                sc.topic = "é".repeat(r.range(30_000, 32_767));
                sc.seg = 2 * (i / 20 % 2);
                sc.pause = 0;
                sc.msgs = sc.msgs.min(20);
                if sc.seg != 0 {
                    sc.msgs = 2;
                }
                rep.count("runs_with_large_publications", 1);
            }
            let a = args(&sc, &d, r);
            let o = run(exe, &sc, &a, limit);
            complete(&sc, &a, &o)?;
            rep.evaluations += 1;
            rep.count("runs_completed", 1);
            rep.count(&format!("broker named {:?}", o.at), 1);
            rep.count("publications_seen", o.st.msgs.len() as u64);
            rep.count("deliveries", o.st.subs.iter().map(|s| s.sent.len() as u64).sum());
            rep.distinct.insert(fnv(&o.st.order) ^ fnv(format!("{}{}{}{}", sc.subs, sc.msgs, sc.seg, sc.pause).as_bytes()));
        }
        // connections the broker closes
        2 => {
            let k = r.below(sc.subs + sc.pubs + 1);
            let how = *r.pick(&[Close::Fin, Close::Reset, Close::Disconnect]);
            if k == sc.subs + sc.pubs {
                // nobody listens
                let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
                let port = l.local_addr().unwrap().port();
                drop(l);
                let mut c = std::process::Command::new(exe);
                c.arg("-e").arg(format!("127.0.0.1:{port}")).args(args(&sc, &d, r));
                let t = Instant::now();
                let mut ch = c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
                loop {
                    if let Some(s) = ch.try_wait().unwrap() {
                        if s.code() == Some(0) {
                            return bad("the tool reports success without a broker", String::new());
                        }
                        break;
                    }
                    if t.elapsed().as_secs() > 60 {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        return bad("the tool hangs without a broker", String::new());
                    }
                    std::thread::sleep(Duration::from_millis(3));
                }
                rep.count("broker missing", 1);
                rep.evaluations += 1;
                return Ok(());
            }
            let total = sc.pubs * sc.msgs;
            let p = if k < sc.subs {
                match r.below(6) {
                    0 => Point::Accept,
                    1 => Point::Connect,
                    2 => Point::Connack,
                    3 => Point::Subscribe,
                    4 => Point::After(total - 1),
                    _ => Point::After(r.below(total)),
                }
            } else {
                match r.below(6) {
                    0 => Point::Accept,
                    1 => Point::Connect,
                    2 => Point::Connack,
                    3 => {
                        // after its last publication, while a subscriber still waits
                        sc.never_last = true;
                        Point::After(sc.msgs)
                    }
                    _ => Point::After(r.below(sc.msgs)),
                }
            };
            if k >= sc.subs && (p != Point::Accept && p != Point::Connect) {
                sc.never_last = true;
            }
            sc.fault = Some((k, p, how));
            sc.hold_last = None;
            let a = args(&sc, &d, r);
            let o = run(exe, &sc, &a, 30.0);
            if o.timeout {
                return bad("the tool hangs although the broker closed a connection", describe(&sc, &a, &o));
            }
            if !o.st.faulted {
                return bad("the tool ends before a connection could be closed", describe(&sc, &a, &o));
            }
            if o.code == Some(0) {
                return bad("the tool reports success although the broker closed a connection early", describe(&sc, &a, &o));
            }
            rep.evaluations += 1;
            let name = match p {
                Point::After(_) => "After".to_string(),
                p => format!("{p:?}"),
            };
            rep.count(&format!("closed {} at {name}", if k < sc.subs { "subscriber" } else { "publisher" }), 1);
            rep.distinct.insert(fnv(format!("{k}{p:?}{how:?}{}{}", sc.subs, sc.pubs).as_bytes()));
        }
        // pauses between publications
        _ => {
            sc.pubs = r.range(1, 2);
            sc.subs = r.range(1, 2);
            sc.seg = 0;
            let (lo, hi, n);
            match r.below(7) {
                0 => (lo, hi, n) = (1_000_000, 1_000_000, 2),
                1 => (lo, hi, n) = (40_000, 40_000, 8),
                2 => (lo, hi, n) = (300, 300, 150),
                3 => (lo, hi, n) = (5_000, 5_000, 60),
                4 => (lo, hi, n) = (1_000, 1_000, 150),
                5 => (lo, hi, n) = (10_000, 50_000, 40),
                _ => (lo, hi, n) = (0, 60_000, 40),
            }
            sc.msgs = n;
            if lo == 1000 && r.chance(1, 2) {
                d = Delay::Default;
            } else if lo == hi && r.chance(2, 3) {
                d = Delay::Const(unit(lo, r));
            } else {
                d = Delay::MinMax(format!("{}:{}", unit(lo, r), unit(hi, r)));
            }
            let a = args(&sc, &d, r);
            thrice(|| {
                let o = run(exe, &sc, &a, 30.0);
                complete(&sc, &a, &o)?;
                for p in &o.st.pubs {
                    let gaps: Vec<f64> = p.at.windows(2).map(|w| (w[1] - w[0]).as_secs_f64() * 1e6).collect();
                    let total: f64 = gaps.iter().sum();
                    let mean = (lo + hi) as f64 / 2.0;
                    let k = gaps.len() as f64;
                    if total < k * mean * 0.72 {
                        return bad("publications follow each other faster than requested", format!("{:.0} µs between {} publications\n{}", total / k, n, describe(&sc, &a, &o)));
                    }
                    if total > k * (mean * 1.28 + 6_000.0) + 400_000.0 {
                        return bad("publications follow each other slower than requested", format!("{:.0} µs between {} publications\n{}", total / k, n, describe(&sc, &a, &o)));
                    }
                    if hi >= lo + 20_000 {
                        let mut g = gaps.clone();
                        g.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        let (q20, q80) = (g[g.len() / 5], g[g.len() * 4 / 5]);
                        let w = (hi - lo) as f64;
                        if q20 > lo as f64 + 0.5 * w || q80 < lo as f64 + 0.55 * w {
                            return bad("random pauses do not cover the requested range", format!("a fifth is below {q20:.0} µs and a fifth above {q80:.0} µs\n{}", describe(&sc, &a, &o)));
                        }
                    }
                    rep.count("pauses_measured", gaps.len() as u64);
                }
                rep.evaluations += 1;
                rep.distinct.insert(fnv(format!("{d:?}").as_bytes()));
                Ok(())
            })?;
        }
    }
    Ok(())
}

struct Figures {
    pubs: u64,
    subs: u64,
    msgs: u64,
    topic: String,
    departure: f64,
    arrival: f64,
    min: f64,
    max: f64,
    p75: f64,
    p90: f64,
    p99: f64,
}
impl Figures {
    /// as they would be had the tool's clock run at normal speed
    fn slowed(self, w: f64) -> Figures {
        Figures {
            departure: self.departure * w,
            arrival: self.arrival * w,
            min: self.min / w,
            max: self.max / w,
            p75: self.p75 / w,
            p90: self.p90 / w,
            p99: self.p99 / w,
            ..self
        }
    }
}
/// seconds
fn dur(s: &str) -> Option<f64> {
    for (u, f) in [("ns", 1e-9), ("µs", 1e-6), ("ms", 1e-3), ("s", 1.0)] {
        if let Some(x) = s.trim().strip_suffix(u) {
            return x.parse::<f64>().ok().map(|v| v * f);
        }
    }
    None
}
fn figures(out: &str) -> Result<Figures, String> {
    let get = |p: &str, suffix: &str| -> Result<String, String> {
        let l: Vec<&str> = out.lines().filter_map(|l| l.strip_prefix(p)).collect();
        if l.len() != 1 {
            return Err(format!("{} lines start with {p:?}", l.len()));
        }
        l[0].strip_suffix(suffix).map(|s| s.to_string()).ok_or(format!("line {p:?} lacks {suffix:?}"))
    };
    let n = |p: &str| -> Result<u64, String> { get(p, "")?.trim().parse().map_err(|_| format!("no number after {p:?}")) };
    let t = |p: &str| -> Result<f64, String> { dur(&get(p, "")?).ok_or(format!("no duration after {p:?}")) };
    let f = |p: &str, s: &str| -> Result<f64, String> { get(p, s)?.trim().parse().map_err(|_| format!("no number after {p:?}")) };
    Ok(Figures {
        pubs: n("Number of concurrent Publishers: ")?,
        subs: n("Number of concurrent Subscribers: ")?,
        msgs: n("Number of publish messages: ")?,
        topic: get("Benchmarking topic: ", "")?,
        departure: f("Mean departure rate = ", " packets/second/publisher")?,
        arrival: f("Mean arrival rate = ", " packets/second/subscriber")?,
        min: t("Minimum trip time: ")?,
        max: t("Maximum trip time: ")?,
        p75: t("75th percentile trip time: ")?,
        p90: t("90th percentile trip time: ")?,
        p99: t("99th percentile trip time: ")?,
    })
}
fn b02(exe: &str, i: usize, r: &mut Rng, rep: &mut Report) -> Res {
    let mut sc = script(r);
    sc.seg = 0;
    sc.pause = 0;
    sc.hold_last = None;
    let (mut d, mut a);
    match i % 4 {
        // held publications: trip times and arrival rates
        0 | 1 => {
            sc.subs = r.range(1, 4);
            sc.pubs = r.range(1, 4);
            sc.msgs = *r.pick(&[1usize, 3, 5, 8, 20, 30, 40, 60]);
            let total = sc.pubs * sc.msgs;
            d = Delay::None;
            let h = (0..sc.subs)
                .map(|_| {
                    // sizes of the groups, each with its own delay
                    let (c1, c2, c3) = (r.range(0, total), r.range(0, total), r.range(total * 3 / 4, total));
                    let mut cuts = [c1, c2, c3];
                    cuts.sort();
                    let base = *r.pick(&[350u64, 500, 900, 1400]);
                    let last = (0..total).map(|k| cuts.iter().filter(|c| **c <= k).count() as u64 * base / 4).collect::<Vec<_>>();
                    let mut last = last;
                    if let Some(x) = last.last_mut() {
                        *x = (*x).max(base);
                    }
                    last
                })
                .collect();
            sc.hold = Some(h);
            if r.chance(1, 2) {
                sc.warp = *r.pick(&[20u32, 5000, 5000, 100_000, 100_000]);
                // hours (at such speed) before the first publication
                sc.suback = vec![*r.pick(&[0u64, 800])];
            }
            a = args(&sc, &d, r);
        }
        // publishers that cannot send for a while: departure rates
        2 => {
            sc.subs = r.range(1, 2);
            sc.pubs = r.range(1, 3);
            sc.msgs = r.range(300, 400);
            sc.topic = format!("long/{}", "x".repeat(10_000));
            sc.small_window = true;
            sc.stall = vec![300, 900, 2200];
            r.shuffle(&mut sc.stall);
            d = Delay::None;
            if r.chance(1, 2) {
                sc.warp = *r.pick(&[20u32, 300, 5000]);
            }
            a = args(&sc, &d, r);
        }
        // any options at all
        _ => {
            let us = *r.pick(&[0u64, 1, 300, 1000, 2000]);
            let s = unit(us, r);
            d = if r.chance(1, 2) { Delay::Const(s) } else { Delay::MinMax(format!("{s}:{}", unit(us + 1000, r))) };
            a = args(&sc, &d, r);
            if i == 7 {
                // a run that goes on for some seconds
                (sc.subs, sc.pubs, sc.msgs) = (1, 2, 3);
                let s = unit(2_000_000, r);
                d = Delay::Const(s);
                a = args(&sc, &d, r);
            }
            if i == 11 {
                // more samples than 16 bits count
                sc.pubs = 12;
                sc.subs = 2;
                sc.msgs = 3000;
                d = Delay::None;
                // three quarters of them are held back for longer
                sc.hold = Some((0..2).map(|_| (0..36_000).map(|k| if k < 8000 { 0 } else { 1200 }).collect()).collect());
                a = args(&sc, &d, r);
            }
            if i == 3 {
                // the defaults
                sc = Script { subs: 10, pubs: 10, msgs: 1000, topic: DEFAULT_TOPIC.into(), ..sc };
                a = vec![];
            }
        }
    }
    thrice(|| {
        let o = run(exe, &sc, &a, 30.0);
        complete(&sc, &a, &o)?;
        let f = match figures(&o.out) {
            Ok(f) => f.slowed(sc.warp as f64),
            Err(e) => return bad("the report is incomplete", format!("{e}\n{}", describe(&sc, &a, &o))),
        };
        let no = |w: &str, x: String| bad(w, format!("{x}\n{}", describe(&sc, &a, &o)));
        if (f.pubs, f.subs, f.msgs, f.topic.as_str()) != (sc.pubs as u64, sc.subs as u64, sc.msgs as u64, sc.topic.as_str()) {
            return no("the reported configuration is not the requested one", String::new());
        }
        if !(f.min <= f.p75 && f.p75 <= f.p90 && f.p90 <= f.p99 && f.p99 <= f.max) {
            return no("minimum, percentiles and maximum are not in order", String::new());
        }
        // trip times: what was held back is a lower bound of each, and the run's length an upper one
        let mut low: Vec<f64> = o.st.subs.iter().flat_map(|s| s.held.iter().map(|h| h.as_secs_f64())).collect();
        low.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let n = low.len();
        let slack = 0.09;
        let at = |p: usize| (low[(n * p / 100).saturating_sub(1).min(n - 1)], low[(n * p / 100 + 1).min(n - 1)]);
        // stalled publications spend unknown time in the kernel before the broker reads them
        let exact = sc.stall.is_empty() && i != 3 && i != 11;
        let all = (o.end - o.start).as_secs_f64();
        for (name, v, (lo, hi)) in [("minimum", f.min, (low[0], low[0])), ("75th percentile", f.p75, at(75)), ("90th percentile", f.p90, at(90)), ("99th percentile", f.p99, at(99)), ("maximum", f.max, (low[n - 1], low[n - 1]))] {
            let hi = if exact { hi + slack } else { all };
            if v < lo * 0.999 - 1e-6 || v > hi {
                return no(&format!("the reported {name} trip time does not fit the delays that occurred"), format!("reported {v:.6}s, possible {lo:.6}s to {hi:.6}s"));
            }
        }
        rep.count("trip_times_bounded", 5);
        if sc.warp > 1 {
            rep.count(&format!("runs at {} times the speed", sc.warp), 1);
            rep.count("hours_simulated", (all * sc.warp as f64 / 3600.0) as u64);
        }
        // rates are given to two decimal places of the tool's own seconds
        let digit = 0.006 * (sc.warp - 1) as f64;
        // arrival rate
        let total = (sc.pubs * sc.msgs) as f64;
        let spans: Vec<f64> = o.st.subs.iter().map(|s| (*s.sent.last().unwrap() - s.suback.unwrap()).as_secs_f64()).collect();
        let want = spans.iter().map(|s| total / s).sum::<f64>() / spans.len() as f64;
        let clear = exact && spans.iter().all(|s| *s >= 0.3);
        if clear && (f.arrival < want * 0.88 - digit || f.arrival > want * 1.14 + digit) {
            return no("the mean arrival rate is not the mean of what the subscribers saw", format!("reported {:.2}, subscribers received {total} in {spans:?} seconds: {want:.2}", f.arrival));
        }
        rep.count("arrival_rates_compared", clear as u64);
        // departure rate: no publisher can have been busy sending longer than its part of the run
        let m = sc.msgs as f64;
        let least = o.st.pubs.iter().map(|p| m / (o.end - p.connack.unwrap()).as_secs_f64()).sum::<f64>() / sc.pubs as f64;
        if f.departure < least * 0.999 - 0.01 - digit {
            return no("the mean departure rate is lower than possible", format!("reported {:.2}, at least {least:.2}", f.departure));
        }
        if !sc.stall.is_empty() {
            // the k-th publisher to show up was stalled for the k-th time
            let busy: Vec<f64> = o.st.pubs.iter().map(|p| (p.last.unwrap() - p.connack.unwrap()).as_secs_f64()).collect();
            let want = busy.iter().map(|b| m / b).sum::<f64>() / busy.len() as f64;
            if f.departure < want * 0.88 - digit || f.departure > want * 1.14 + digit {
                return no("the mean departure rate is not the mean over the publishers", format!("reported {:.2}, publishers were busy for {busy:?} seconds with {m} publications each: {want:.2}", f.departure));
            }
            rep.count("departure_rates_compared", 1);
        }
        rep.evaluations += 1;
        rep.distinct.insert(fnv(format!("{}/{}/{}/{:?}/{:?}", sc.subs, sc.pubs, sc.msgs, sc.stall, sc.hold).as_bytes()));
        if rep.samples.len() < 3 {
            rep.sample(format!("{} subscribers, {} publishers, {} messages: arrival {:.2}, departure {:.2}, max {:.4}s", sc.subs, sc.pubs, sc.msgs, f.arrival, f.departure, f.max));
        }
        Ok(())
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, exe) = (a[1].as_str(), a[2].as_str());
    let (f, rule, n, threads): (fn(&str, usize, &mut Rng, &mut Report) -> Res, _, _, _) = match prop {
        "B01" => (b01, "a run is non-trivial when the tool reached the broker; distinct by the order in which publications of different publishers arrived, the fault and the pauses asked for", [240, 4000], 4),
        "B02" => (b02, "a run is non-trivial when the report was compared with timings under the control of the stand-in; distinct by configuration and delays", [60, 1000], 3),
        _ => std::process::exit(2),
    };
    let n = n[thorough() as usize];
    let n = std::env::var("VERIF_EPISODES").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    let only: Option<usize> = std::env::var("VERIF_EPISODE").ok().and_then(|s| s.parse().ok());
    let end = Instant::now() + Duration::from_secs(if thorough() { 600 } else { 60 });
    let (next, stop) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let base = Rng::new(seed());
    let mut rep = Report::new(prop, rule);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| {
                    let mut p = Report::new(prop, rule);
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= n || Instant::now() > end || stop.load(SeqCst) >= 3 {
                            return p;
                        }
                        if only.map_or(false, |o| o != i) {
                            continue;
                        }
                        p.count("episodes", 1);
                        if let Err(Bad(w, d)) = f(exe, i, &mut base.fork(i as u64 + 1000), &mut p) {
                            stop.fetch_add(1, SeqCst);
                            p.violate(w, format!("episode {i} (VERIF_EPISODE={i})\n{d}"));
                            return p;
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(p) => rep.merge(p),
                Err(_) => {
                    eprintln!("harness thread died");
                    std::process::exit(3);
                }
            }
        }
    });
    std::process::exit(rep.finish());
}
