//! S15: the subscription table under concurrent use, through the verification hook.
//! Two schedulers: a seeded single-threaded one that interleaves the operations at every lock
//! acquisition (and knows for certain when they deadlock), and real threads.
use crate::env::*;
use crate::s_hist::finish;
use apiformes_packet::prelude::QoS;
use apiformes_server_lib::verif_hooks::{SubscriptionFlags, TopicsTable};
use refmqtt::matcher::matches;
use refmqtt::report::Report;
use refmqtt::rng::{fnv, Rng};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug)]
enum Op {
    Sub { c: usize, f: String, flags: u8 },
    Unsub { c: usize, f: String },
    UnsubAll { c: usize },
    Look { t: String },
}
#[derive(Clone, Debug)]
struct Done {
    start: u64,
    /// u64::MAX while it runs
    end: u64,
    op: Op,
    res: BTreeMap<String, u8>,
}
fn cid(c: usize) -> Arc<str> {
    Arc::from(format!("c{c}"))
}
async fn perform(t: &TopicsTable, op: &Op) -> BTreeMap<String, u8> {
    match op {
        Op::Sub { c, f, flags } => t.subscribe(cid(*c), Arc::from(f.as_str()), QoS::QoS0, SubscriptionFlags::from_bits(*flags).unwrap()).await,
        Op::Unsub { c, f } => t.unsubscribe(cid(*c), f).await,
        Op::UnsubAll { c } => t.unsubscribe_all(cid(*c)).await,
        Op::Look { t: topic } => return t.get_all_subscribed(topic).await.iter().map(|(k, v)| (k.to_string(), v.flags.bits())).collect(),
    }
    BTreeMap::new()
}
/// few levels and few words, so that operations meet
fn rtopic(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let mut v: Vec<&str> = (0..n).map(|_| *r.pick(&["a", "a", "b", "c", ""])).collect();
    if r.chance(1, 10) {
        v[0] = *r.pick(&["$s", "$"]);
    }
    if r.chance(1, 10) {
        v[n - 1] = *r.pick(&["$", "$s"]);
    }
    let t = v.join("/");
    if t.is_empty() {
        "a".into()
    } else {
        t
    }
}
fn rfilter(r: &mut Rng) -> String {
    let t = rtopic(r);
    let mut v: Vec<&str> = t.split('/').collect();
    for x in v.iter_mut() {
        if r.chance(1, 4) {
            *x = "+";
        }
    }
    if r.chance(1, 3) {
        let n = r.range(0, v.len());
        v.truncate(n);
        v.push("#");
    }
    v.join("/")
}
struct Gen {
    filters: Vec<String>,
    topics: Vec<String>,
    clients: usize,
    w: [usize; 4],
}
impl Gen {
    fn new(r: &mut Rng) -> Gen {
        let mut filters: Vec<String> = (0..r.range(1, 8)).map(|_| rfilter(r)).collect();
        if r.chance(1, 3) {
            // same prefix everywhere: blocks get created concurrently
            let p = rtopic(r);
            filters = (0..r.range(2, 10)).map(|i| format!("{p}/{}", ["x", "y", "x/y", "+", "#", "x/#", "z/w/v", "x/y/z"][i % 8])).collect();
        }
        let mut topics: Vec<String> = (0..r.range(1, 4)).map(|_| rtopic(r)).collect();
        for f in &filters {
            topics.push(f.replace('#', "h").replace('+', "p"));
        }
        let mut w = [6, 2, 1, 5];
        if r.chance(1, 3) {
            w = [6, 0, 0, 4]; // only additions: nothing may be missing at the end
        }
        Gen { filters, topics, clients: r.range(1, 5), w }
    }
    fn op(&self, r: &mut Rng, own: Option<usize>) -> Op {
        let c = own.unwrap_or_else(|| r.below(self.clients));
        let mut x = r.below(self.w.iter().sum());
        let mut k = 0;
        while x >= self.w[k] {
            x -= self.w[k];
            k += 1;
        }
        match k {
            0 => Op::Sub { c, f: r.pick(&self.filters).clone(), flags: r.below(4) as u8 },
            1 => Op::Unsub { c, f: r.pick(&self.filters).clone() },
            2 => Op::UnsubAll { c },
            _ => Op::Look { t: r.pick(&self.topics).clone() },
        }
    }
}
/// Each lookup against what must and what may be in force, from the recorded start and end times.
fn check(h: &[Done], clients: usize) -> Res<u64> {
    let mut verdicts = 0;
    let mut subs: HashMap<(usize, &str), Vec<(&Done, u8)>> = HashMap::new();
    let mut dels: HashMap<usize, Vec<(&Done, Option<&str>)>> = HashMap::new();
    for d in h {
        match &d.op {
            Op::Sub { c, f, flags } => subs.entry((*c, f.as_str())).or_default().push((d, *flags)),
            Op::Unsub { c, f } => dels.entry(*c).or_default().push((d, Some(f.as_str()))),
            Op::UnsubAll { c } => dels.entry(*c).or_default().push((d, None)),
            _ => (),
        }
    }
    for l in h {
        let Op::Look { t } = &l.op else { continue };
        for c in 0..clients {
            let name = format!("c{c}");
            let got = l.res.get(&name).copied();
            let none = vec![];
            let dl = dels.get(&c).unwrap_or(&none);
            let mut must = None;
            let mut may: Vec<u8> = vec![];
            for ((k, f), ss) in &subs {
                if *k != c || !matches(f, t) {
                    continue;
                }
                let rel: Vec<&&Done> = dl.iter().filter(|(_, g)| g.map_or(true, |g| g == *f)).map(|(d, _)| d).collect();
                for (s, fl) in ss {
                    if s.start > l.end {
                        continue;
                    }
                    // gone for certain: removed, or replaced by a later subscription
                    let removed = rel.iter().any(|d| d.start > s.end && d.end < l.start);
                    let replaced = ss.iter().any(|(s2, _)| s2.start > s.end && s2.end < l.start);
                    if !removed {
                        if !replaced {
                            may.push(*fl);
                        }
                        if s.end < l.start && rel.iter().all(|d| d.end < s.start || d.start > l.end) {
                            must = Some(s);
                        }
                    }
                }
            }
            verdicts += 1;
            let detail = || {
                let mut v: Vec<String> = vec![];
                for d in h {
                    let rel = match &d.op {
                        Op::Sub { c: k, f, .. } | Op::Unsub { c: k, f } => *k == c && matches(f, t),
                        Op::UnsubAll { c: k } => *k == c,
                        _ => false,
                    };
                    if rel {
                        v.push(format!("[{}..{}] {:?}", d.start, d.end, d.op));
                    }
                }
                format!("lookup [{}..{}] of {t:?} reports {got:?} for {name}\nwhat happened to its subscriptions that match:\n{}", l.start, l.end, v.join("\n"))
            };
            match (got, must) {
                (None, Some(_)) => return bad("a lookup misses a client that is certainly subscribed", detail()),
                (Some(_), _) if may.is_empty() => return bad("a lookup reports a client that is certainly not subscribed", detail()),
                (Some(g), _) if !may.contains(&g) => return bad("a lookup reports subscription options that are not in force", detail()),
                _ => (),
            }
        }
    }
    Ok(verdicts)
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}
/// after everything: lookups agree with the history, and nothing survives unsubscribe_all
fn aftermath(t: &TopicsTable, g: &Gen, h: &mut Vec<Done>, clock: &mut u64, run: &dyn Fn(Pin<Box<dyn Future<Output = BTreeMap<String, u8>> + '_>>) -> Option<BTreeMap<String, u8>>) -> Res<()> {
    let mut tail: Vec<Op> = g.topics.iter().map(|t| Op::Look { t: t.clone() }).collect();
    for c in 0..g.clients {
        tail.push(Op::UnsubAll { c });
        tail.extend(g.topics.iter().map(|t| Op::Look { t: t.clone() }));
    }
    for op in tail {
        let start = *clock;
        let Some(res) = run(Box::pin(perform(t, &op))) else { return bad("an operation on the subscription table deadlocks", format!("{op:?} alone, after all others")) };
        h.push(Done { start, end: start + 1, op, res });
        *clock += 2;
    }
    Ok(())
}
fn deterministic(r: &mut Rng, rep: &mut Report) -> Res<()> {
    let t = TopicsTable::new();
    let g = Gen::new(r);
    let mut clock = 1u64;
    let mut h: Vec<Done> = vec![];
    // some history first
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let w = Waker::from(flag.clone());
    let alone = |mut f: Pin<Box<dyn Future<Output = BTreeMap<String, u8>> + '_>>| -> Option<BTreeMap<String, u8>> {
        let mut cx = Context::from_waker(&w);
        loop {
            if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                return Some(x);
            }
            if !flag.0.swap(false, SeqCst) {
                return None;
            }
        }
    };
    for _ in 0..r.below(6) {
        let op = g.op(r, None);
        let start = clock;
        let Some(res) = alone(Box::pin(perform(&t, &op))) else { return bad("an operation on the subscription table deadlocks", format!("{op:?} alone")) };
        h.push(Done { start, end: start + 1, op, res });
        clock += 2;
    }
    // then tasks of one to three operations each, interleaved
    let n = r.range(2, 7);
    let hist: Mutex<(u64, Vec<Done>)> = Mutex::new((clock, h));
    let plans: Vec<Vec<Op>> = (0..n)
        .map(|i| {
            let own = if r.chance(1, 2) { Some(i % g.clients) } else { None };
            (0..r.range(1, 3)).map(|_| g.op(r, own)).collect()
        })
        .collect();
    let mut tasks: Vec<Option<Pin<Box<dyn Future<Output = ()> + '_>>>> = plans
        .iter()
        .map(|p| {
            let (t, hist) = (&t, &hist);
            let f: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async move {
                for op in p {
                    let at = {
                        let mut x = hist.lock().unwrap();
                        x.0 += 1;
                        let start = x.0;
                        x.1.push(Done { start, end: u64::MAX, op: op.clone(), res: BTreeMap::new() });
                        x.1.len() - 1
                    };
                    let res = perform(t, op).await;
                    let mut x = hist.lock().unwrap();
                    x.0 += 1;
                    let end = x.0;
                    x.1[at].end = end;
                    x.1[at].res = res;
                }
            });
            Some(f)
        })
        .collect();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| Waker::from(f.clone())).collect();
    let mut order = vec![];
    // a task in the lead most of the time, or any runnable one
    let sticky = r.chance(1, 3);
    let mut last = 0;
    let mut steps = 0u64;
    while tasks.iter().any(|t| t.is_some()) {
        let ready: Vec<usize> = (0..n).filter(|i| tasks[*i].is_some() && flags[*i].0.load(SeqCst)).collect();
        if ready.is_empty() {
            let x = hist.lock().unwrap();
            let v: Vec<_> = x.1.iter().filter(|d| d.end == u64::MAX).map(|d| format!("{:?}", d.op)).collect();
            return bad("operations on the subscription table deadlock", format!("all of these wait for each other: {v:?}\nfilters {:?}\npolling order {order:?}", g.filters));
        }
        let i = if sticky && ready.contains(&last) && r.chance(3, 4) { last } else { *r.pick(&ready) };
        last = i;
        flags[i].0.store(false, SeqCst);
        order.push(i as u8);
        steps += 1;
        let mut cx = Context::from_waker(&wakers[i]);
        if let Poll::Ready(()) = tasks[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            tasks[i] = None;
        }
    }
    drop(tasks);
    let (mut clock, mut h) = hist.into_inner().unwrap();
    clock += 2;
    aftermath(&t, &g, &mut h, &mut clock, &alone)?;
    let v = check(&h, g.clients).map_err(|x| Bad { what: x.what, detail: format!("{}\nseeded scheduler, polling order {order:?}\nplans {plans:?}", x.detail) })?;
    rep.evaluations += v;
    rep.count("scheduled_runs", 1);
    rep.count("scheduler_steps", steps);
    rep.count("lookup_verdicts", v);
    rep.distinct.insert(fnv(format!("{order:?}{:?}", plans.iter().map(|p| p.iter().map(|o| std::mem::discriminant(o)).collect::<Vec<_>>()).collect::<Vec<_>>()).as_bytes()));
    Ok(())
}
fn threaded(r: &mut Rng, rep: &mut Report) -> Res<()> {
    let t = Arc::new(TopicsTable::new());
    let g = Gen::new(r);
    let clock = Arc::new(AtomicU64::new(1));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).thread_name("srv-table").enable_time().build().unwrap();
    let nt = r.range(2, 8);
    let per = r.range(10, 60);
    let plans: Vec<Vec<Op>> = (0..nt)
        .map(|i| {
            let own = if r.chance(1, 2) { Some(i % g.clients) } else { None };
            (0..per).map(|_| g.op(r, own)).collect()
        })
        .collect();
    let (tx, rx) = std::sync::mpsc::channel();
    for p in plans {
        let (t, clock, tx) = (t.clone(), clock.clone(), tx.clone());
        rt.spawn(async move {
            let mut v = vec![];
            for op in p {
                let start = clock.fetch_add(1, SeqCst);
                let res = perform(&t, &op).await;
                let end = clock.fetch_add(1, SeqCst);
                v.push(Done { start, end, op, res });
            }
            let _ = tx.send(v);
        });
    }
    drop(tx);
    let mut h = vec![];
    let d = limit();
    let mut got = 0;
    while got < nt {
        match rx.recv_timeout(std::time::Duration::from_millis(50)) {
            Ok(v) => {
                h.extend(v);
                got += 1;
            }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => return bad("an operation on the subscription table panics", format!("filters {:?} {:?}", g.filters, PANICS_NOTE)),
            Err(_) if d.over() => {
                rt.shutdown_background();
                return bad("operations on the subscription table do not finish", format!("{got} of {nt} tasks done; filters {:?}", g.filters));
            }
            Err(_) => (),
        }
    }
    let mut c = clock.load(SeqCst) + 1;
    let alone = |f: Pin<Box<dyn Future<Output = BTreeMap<String, u8>> + '_>>| -> Option<BTreeMap<String, u8>> { rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(20), f).await.ok() }) };
    aftermath(&t, &g, &mut h, &mut c, &alone)?;
    let v = check(&h, g.clients).map_err(|x| Bad { what: x.what, detail: format!("{}\nreal threads, {nt} tasks", x.detail) })?;
    rep.evaluations += v;
    rep.count("threaded_runs", 1);
    rep.count("lookup_verdicts", v);
    let overlaps = h.windows(2).filter(|w| w[0].end > w[1].start).count();
    rep.count("overlapping_neighbours", overlaps as u64);
    rep.distinct.insert(fnv(format!("{:?}", h.iter().map(|d| (d.start, d.end)).collect::<Vec<_>>()).as_bytes()));
    Ok(())
}
const PANICS_NOTE: &str = "(see the panic message above)";
pub fn s15() -> i32 {
    perturb(400, 3);
    perturb_long(0);
    let rep = episodes(
        "S15",
        "a run is non-trivial by the order in which its operations interleave; distinct ones are counted",
        Plan::new(250_000, 5_000_000).threads(8).secs(60.0, 700.0),
        |e, r, rep| {
            if e % 40 == 0 {
                threaded(r, rep)
            } else {
                deterministic(r, rep)
            }
        },
    );
    finish(rep)
}
