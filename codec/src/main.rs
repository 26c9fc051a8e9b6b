mod alloc;
mod bridge;
mod bufs;
mod c01;
mod c0x;
mod c06;
use refmqtt::report::*;
use refmqtt::rng::Rng;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub struct Env {
    pub thorough: bool,
    pub deadline: Instant,
    pub thread: usize,
    pub threads: usize,
    pub rng: Rng,
}
impl Env {
    pub fn over(&self) -> bool {
        Instant::now() > self.deadline
    }
    /// share of n for this thread
    pub fn share(&self, n: usize) -> usize {
        n / self.threads + usize::from(self.thread < n % self.threads)
    }
}
/// Run f on several threads with independent random streams and merge the reports.
pub fn par(property: &str, rule: &str, f: impl Fn(&mut Env, &mut Report) + Sync) -> Report {
    let th = if cfg!(miri) { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) };
    let budget = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 500 } else { 60 });
    let deadline = Instant::now() + Duration::from_secs(budget);
    let mut total = Report::new(property, rule);
    let base = Rng::new(seed());
    let mut parts = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..th)
            .map(|t| {
                let f = &f;
                let rng = base.fork(t as u64 + 1);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut e = Env { thorough: thorough(), deadline, thread: t, threads: th, rng };
                        let mut r = Report::new(property, rule);
                        f(&mut e, &mut r);
                        r
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            parts.push(h.join());
        }
    });
    for p in parts {
        match p {
            Ok(r) => total.merge(r),
            Err(_) => {
                eprintln!("harness thread died");
                std::process::exit(3);
            }
        }
    }
    total
}
fn main() {
    // panics of the code under test are caught and reported by the checks
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if std::env::var("VERIF_PANICS").is_ok() {
            hook(i)
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let what = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match what {
        "C01" => c01::run(),
        "C02" => c0x::c02(),
        "C03" => c0x::c03(),
        "C04" => c0x::c04(),
        "C05" => c0x::c05(),
        "C06" => c06::run(),
        "C07" => c0x::c07(),
        "C08" => c0x::c08(),
        "decode" => c01::decode_file(&a[2]),
        _ => {
            eprintln!("usage: codec C01..C08|M01|decode FILE");
            2
        }
    };
    std::process::exit(code);
}
