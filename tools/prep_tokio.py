#!/usr/bin/env python3
"""Copy tokio 1.15.0 from the cargo registry to build/tokio and add seeded scheduling noise to its
cooperation points (coop::poll_proceed): with a settable probability an operation that could proceed
reports Pending and wakes itself at once or some milliseconds later, optionally delaying the thread.  Any such schedule is one that the
unmodified scheduler may also produce."""
import glob, os, shutil, sys, tarfile
V = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAME = "tokio-1.15.0"
def main(name="tokio", parking_lot=True):
    dst = f"{V}/build/{name}"
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    tmp = f"{V}/build/{name}.tmp{os.getpid()}"
    os.makedirs(f"{V}/build", exist_ok=True)
    shutil.rmtree(tmp, ignore_errors=True)
    src = glob.glob(f"{home}/registry/src/*/{NAME}") + glob.glob(f"/root/.cargo/registry/src/*/{NAME}")
    if src:
        shutil.copytree(src[0], tmp)
    else:
        c = (glob.glob(f"{home}/registry/cache/*/{NAME}.crate") + glob.glob(f"/root/.cargo/registry/cache/*/{NAME}.crate"))[0]
        with tarfile.open(c) as t:
            t.extractall(tmp + "x")
        os.rename(f"{tmp}x/{NAME}", tmp)
        shutil.rmtree(tmp + "x")
    p = f"{tmp}/src/coop.rs"
    s = open(p).read()
    a = """    pub(crate) fn poll_proceed(cx: &mut Context<'_>) -> Poll<RestoreOnPending> {
"""
    assert s.count(a) == 1
    s = s.replace(a, a + """        if crate::verif_perturb::yield_now() {
            if !crate::verif_perturb::later(cx.waker()) {
                cx.waker().wake_by_ref();
            }
            return Poll::Pending;
        }
""")
    open(p, "w").write(s)
    open(f"{tmp}/src/verif_perturb.rs", "w").write('''//! Scheduling noise for verification.
#![allow(missing_docs, unreachable_pub, missing_debug_implementations)]
use std::cell::Cell;
use std::sync::{Mutex, Once};
use std::task::Waker;
use std::time::{Duration, Instant};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
static YIELDS: AtomicU32 = AtomicU32::new(0);
static SLEEPS: AtomicU32 = AtomicU32::new(0);
static HITS: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0x9e37_79b9_7f4a_7c15);
thread_local!(static S: Cell<u64> = Cell::new(SEED.fetch_add(0xd134_2543_de82_ef95, Relaxed) | 1));
/// both in permille: probability of a forced yield, and of a delay at a forced yield
pub fn set(yields: u32, sleeps: u32) {
    YIELDS.store(yields, Relaxed);
    SLEEPS.store(sleeps, Relaxed);
}
static LONG: AtomicU32 = AtomicU32::new(0);
static WAITING: Mutex<Vec<(Instant, Waker)>> = Mutex::new(Vec::new());
static STARTED: Once = Once::new();
/// permille of the forced yields after which the task is left alone for up to five milliseconds
pub fn set_long(n: u32) {
    LONG.store(n, Relaxed);
    if n > 0 {
        STARTED.call_once(|| {
            WAITING.lock().unwrap().reserve(1 << 12);
            std::thread::spawn(|| loop {
                std::thread::sleep(Duration::from_micros(300));
                let now = Instant::now();
                loop {
                    let w = {
                        let mut v = WAITING.lock().unwrap();
                        match v.iter().position(|x| x.0 <= now) {
                            Some(i) => v.swap_remove(i).1,
                            None => break,
                        }
                    };
                    w.wake();
                }
            });
        });
    }
}
pub(crate) fn later(w: &Waker) -> bool {
    let n = LONG.load(Relaxed);
    if n == 0 {
        return false;
    }
    let x = random() >> 13;
    if x % 1000 >= n as u64 {
        return false;
    }
    WAITING.lock().unwrap().push((Instant::now() + Duration::from_micros(200 + (x >> 12) % 5000), w.clone()));
    true
}
pub fn hits() -> u64 {
    HITS.load(Relaxed)
}
fn random() -> u64 {
    S.try_with(|s| {
        let mut x = s.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        x
    }).unwrap_or(0)
}
pub(crate) fn yield_now() -> bool {
    let y = YIELDS.load(Relaxed);
    if y == 0 {
        return false;
    }
    let x = random() >> 11;
    if x % 1000 >= y as u64 {
        return false;
    }
    HITS.fetch_add(1, Relaxed);
    if (x >> 20) % 1000 < SLEEPS.load(Relaxed) as u64 {
        std::thread::sleep(std::time::Duration::from_micros((x >> 30) % 400));
    }
    true
}
''')
    p = f"{tmp}/src/lib.rs"
    s = open(p).read()
    a = "pub(crate) mod coop;\n"
    assert s.count(a) == 1
    s = s.replace(a, "#[doc(hidden)]\npub mod verif_perturb;\n" + a)
    open(p, "w").write(s)
    if not parking_lot:
        # the interpreter refuses its futex calls; std's locks are used instead
        for f in glob.glob(f"{tmp}/src/**/*.rs", recursive=True):
            s = open(f).read()
            if 'feature = "parking_lot"' in s:
                open(f, "w").write(s.replace('feature = "parking_lot"', "any()"))
    # only replace what is there when something differs, so that cargo does not rebuild needlessly
    same = os.path.isdir(dst) and all(os.path.exists(f"{dst}/{f}") and open(f"{dst}/{f}").read() == open(f"{tmp}/{f}").read()
               for f in ("src/coop.rs", "src/lib.rs", "src/verif_perturb.rs", "src/loom/std/mod.rs"))
    if same:
        shutil.rmtree(tmp)
    else:
        shutil.rmtree(dst, ignore_errors=True)
        os.rename(tmp, dst)
if __name__ == "__main__":
    main()
