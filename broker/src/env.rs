//! Deadlines that do not depend on machine load, panic capture, tracing sink, parallel driver.
use refmqtt::report::*;
use refmqtt::rng::Rng;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static TICKS: AtomicU64 = AtomicU64::new(0);
/// A pair of threads plays ping-pong over loopback every 5 ms; every round is one tick.  A deadline
/// is over only when both the wall clock and this independent workload have moved on, so a machine
/// that is merely slow does not make the broker look hung.
pub fn start_canary() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    std::thread::Builder::new()
        .name("canary-echo".into())
        .spawn(move || {
            let (mut s, _) = l.accept().unwrap();
            let _ = s.set_nodelay(true);
            let mut b = [0u8; 1];
            while s.read_exact(&mut b).is_ok() && s.write_all(&b).is_ok() {}
        })
        .unwrap();
    std::thread::Builder::new()
        .name("canary".into())
        .spawn(move || {
            let mut s = TcpStream::connect(a).unwrap();
            let _ = s.set_nodelay(true);
            let mut b = [7u8; 1];
            loop {
                std::thread::sleep(Duration::from_millis(5));
                if s.write_all(&b).is_err() || s.read_exact(&mut b).is_err() {
                    return;
                }
                TICKS.fetch_add(1, SeqCst);
            }
        })
        .unwrap();
}
#[derive(Clone, Copy)]
pub struct Deadline {
    at: Instant,
    ticks: u64,
}
impl Deadline {
    pub fn new(secs: f64) -> Deadline {
        Deadline { at: Instant::now() + Duration::from_secs_f64(secs), ticks: TICKS.load(SeqCst) + (secs * 100.0) as u64 }
    }
    pub fn over(&self) -> bool {
        Instant::now() >= self.at && TICKS.load(SeqCst) >= self.ticks
    }
}
/// how long something that must happen may take
pub const LIMIT: f64 = 12.0;
pub fn limit() -> Deadline {
    Deadline::new(LIMIT)
}
/// poll until true
pub fn wait(d: Deadline, mut f: impl FnMut() -> bool) -> bool {
    let mut ms = 1;
    loop {
        if f() {
            return true;
        }
        if d.over() {
            return false;
        }
        std::thread::sleep(Duration::from_millis(ms));
        ms = (ms + 1).min(20);
    }
}

static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
static HARNESS_PANIC: AtomicBool = AtomicBool::new(false);
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let t = std::thread::current();
        let n = t.name().unwrap_or("?").to_string();
        if n.starts_with("srv-") {
            let m = format!("{}", i);
            PANICS.lock().unwrap().push((n, m));
        } else {
            HARNESS_PANIC.store(true, SeqCst);
            old(i)
        }
    }));
}
/// panics of server tasks of broker `id`
pub fn panics(id: usize) -> Vec<String> {
    let n = format!("srv-{id}");
    PANICS.lock().unwrap().iter().filter(|p| p.0 == n).map(|p| p.1.clone()).collect()
}

// ---- tracing sink: makes every log statement of the server evaluate its arguments
pub static LOG: AtomicBool = AtomicBool::new(false);
static SPANS: AtomicU64 = AtomicU64::new(1);
pub static LOG_EVENTS: AtomicUsize = AtomicUsize::new(0);
struct Sink;
struct V(usize);
impl tracing::field::Visit for V {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0 += format!("{:?}", v).len();
    }
}
impl tracing::Subscriber for Sink {
    fn register_callsite(&self, _: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        LOG.load(SeqCst)
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut V(0));
        tracing::span::Id::from_u64(SPANS.fetch_add(1, SeqCst))
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut V(0));
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut V(0));
        LOG_EVENTS.fetch_add(1, SeqCst);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
pub fn install_tracing() {
    let _ = tracing::subscriber::set_global_default(Sink);
}

/// What an episode found to be broken.
pub struct Bad {
    pub what: String,
    pub detail: String,
}
pub type Res<T> = Result<T, Bad>;
pub fn bad<T>(what: impl Into<String>, detail: impl Into<String>) -> Res<T> {
    Err(Bad { what: what.into(), detail: detail.into() })
}

pub struct Plan {
    /// episodes (all threads together)
    pub quick: usize,
    pub thorough: usize,
    /// seconds after which no new episode is started
    pub quick_s: f64,
    pub thorough_s: f64,
    pub threads: usize,
}
impl Plan {
    pub fn new(quick: usize, thorough: usize) -> Plan {
        Plan { quick, thorough, quick_s: 45.0, thorough_s: 600.0, threads: 8 }
    }
    pub fn threads(mut self, n: usize) -> Plan {
        self.threads = n;
        self
    }
    pub fn secs(mut self, q: f64, t: f64) -> Plan {
        self.quick_s = q;
        self.thorough_s = t;
        self
    }
}
/// Run numbered, seeded episodes on several threads; a violating episode ends its thread.
pub fn episodes(property: &str, rule: &str, plan: Plan, f: impl Fn(usize, &mut Rng, &mut Report) -> Res<()> + Sync) -> Report {
    let n = if thorough() { plan.thorough } else { plan.quick };
    let n = std::env::var("VERIF_EPISODES").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    let secs = if thorough() { plan.thorough_s } else { plan.quick_s };
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let only: Option<usize> = std::env::var("VERIF_EPISODE").ok().and_then(|s| s.parse().ok());
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let base = Rng::new(seed());
    let mut total = Report::new(property, rule);
    let mut parts = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..plan.threads)
            .map(|t| {
                let (f, next, stop, base) = (&f, &next, &stop, &base);
                std::thread::Builder::new()
                    .name(format!("drv-{t}"))
                    .spawn_scoped(s, move || {
                        let mut r = Report::new(property, rule);
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= n || Instant::now() > end || stop.load(SeqCst) >= 3 {
                                break;
                            }
                            if only.map_or(false, |o| o != i) {
                                continue;
                            }
                            let mut rng = base.fork(i as u64 + 1000);
                            r.count("episodes", 1);
                            if let Err(b) = f(i, &mut rng, &mut r) {
                                stop.fetch_add(1, SeqCst);
                                r.violate(b.what, format!("episode {i} (VERIF_EPISODE={i})\n{}", b.detail));
                                break;
                            }
                        }
                        r
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            parts.push(h.join());
        }
    });
    for p in parts {
        match p {
            Ok(r) => total.merge(r),
            Err(_) => {
                eprintln!("harness thread died");
                std::process::exit(3);
            }
        }
    }
    total
}
/// Scheduler perturbation in permille (forced yields at tokio's cooperation points) and how many of
/// those also delay the thread.
pub fn perturb(yields: u32, sleeps: u32) {
    tokio::verif_perturb::set(yields, sleeps);
    perturb_long(10);
}
/// permille of the forced yields after which the task stays away for milliseconds
pub fn perturb_long(n: u32) {
    tokio::verif_perturb::set_long(n);
}
pub fn perturb_hits() -> u64 {
    tokio::verif_perturb::hits()
}
