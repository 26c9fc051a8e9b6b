//! A broker stand-in that records everything the benchmark tool does and controls every reply.
use refmqtt::rng::Rng;
use refmqtt::wire::*;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub const MODE: Mode = Mode { user_pair: false, short: true, multi_sid: true };

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Close {
    Fin,
    Reset,
    Disconnect,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Point {
    Accept,
    /// CONNECT received, not answered
    Connect,
    /// CONNACK sent
    Connack,
    /// SUBSCRIBE received, not answered (subscribers)
    Subscribe,
    /// so many publications forwarded to it (subscribers) or received from it (publishers)
    After(usize),
}
#[derive(Clone, Debug)]
pub struct Script {
    pub subs: usize,
    pub pubs: usize,
    pub msgs: usize,
    pub topic: String,
    /// connection (in order of arrival) the broker closes early
    pub fault: Option<(usize, Point, Close)>,
    /// 0 whole, 1 byte by byte, 2 random pieces
    pub seg: usize,
    /// pause between the pieces, µs at most
    pub pause: u64,
    /// delay of the n-th SUBACK, ms
    pub suback: Vec<u64>,
    pub connack_props: bool,
    /// when subscriber s may be sent its k-th publication: ms after the last publication reached the broker,
    /// None = at once
    pub hold: Option<Vec<Vec<u64>>>,
    /// last publication of every subscriber: held back until the end (None) or so many ms
    pub hold_last: Option<u64>,
    pub never_last: bool,
    /// publisher p is not read from for so many ms after its CONNACK
    pub stall: Vec<u64>,
    pub small_window: bool,
    /// how the broker is named to the tool
    pub at: At,
    /// the tool's clock runs so many times as fast
    pub warp: u32,
    pub seed: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    V4,
    V6,
    Name,
}
#[derive(Default)]
pub struct PubLog {
    pub conn: usize,
    pub connack: Option<Instant>,
    pub at: Vec<Instant>,
    pub last: Option<Instant>,
    pub closed: Option<Instant>,
    pub released: Option<Instant>,
}
#[derive(Default)]
pub struct SubLog {
    pub suback: Option<Instant>,
    /// when each publication was handed to the kernel
    pub sent: Vec<Instant>,
    /// shortest possible trip time of each
    pub held: Vec<Duration>,
    pub done: Option<Instant>,
    pub closed: Option<Instant>,
}
#[derive(Default)]
pub struct St {
    pub accepted: usize,
    pub subs: Vec<SubLog>,
    pub pubs: Vec<PubLog>,
    /// everything published: bytes to forward, time of arrival
    pub msgs: Vec<(Vec<u8>, Instant)>,
    pub errors: Vec<String>,
    pub faulted: bool,
    pub packets: u64,
    pub order: Vec<u8>,
}
pub struct Mock {
    pub st: Mutex<St>,
    pub cv: Condvar,
    pub stop: AtomicBool,
    pub sc: Script,
}
fn linger0(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32);
    }
}
impl Mock {
    fn err(&self, s: String) {
        let mut g = self.st.lock().unwrap();
        if g.errors.len() < 10 {
            g.errors.push(s);
        }
        self.cv.notify_all();
    }
    fn total(&self) -> usize {
        self.sc.pubs * self.sc.msgs
    }
    fn write(&self, s: &mut TcpStream, b: &[u8], r: &mut Rng) -> bool {
        let mut at = 0;
        while at < b.len() {
            let n = match self.sc.seg {
                0 => b.len(),
                1 => 1,
                _ => r.range(1, 12),
            };
            let e = (at + n).min(b.len());
            if s.write_all(&b[at..e]).is_err() {
                return false;
            }
            at = e;
            if self.sc.seg != 0 && self.sc.pause > 0 && at < b.len() {
                std::thread::sleep(Duration::from_micros(r.below(self.sc.pause as usize) as u64));
            }
        }
        true
    }
    fn fault(&self, i: usize, p: Point, s: &mut TcpStream) -> bool {
        match self.sc.fault {
            Some((c, q, how)) if c == i && q == p => {
                self.st.lock().unwrap().faulted = true;
                match how {
                    Close::Fin => (),
                    Close::Reset => linger0(s),
                    Close::Disconnect => {
                        let mut d = Pkt::new(DISCONNECT);
                        d.reason = 0x8b;
                        let _ = s.write_all(&encode(&d));
                    }
                }
                if how != Close::Reset {
                    let _ = s.shutdown(Shutdown::Both);
                }
                true
            }
            _ => false,
        }
    }
    /// next packet; None: closed or the run is over
    fn read(&self, s: &mut TcpStream, buf: &mut Vec<u8>, i: usize) -> Option<Pkt> {
        loop {
            if !buf.is_empty() {
                match decode(buf, MODE) {
                    Dec::Ok(g) => {
                        buf.drain(..g.consumed);
                        self.st.lock().unwrap().packets += 1;
                        return Some(g.p);
                    }
                    Dec::Bad(w, _) => {
                        self.err(format!("connection {i} sent a malformed packet: {w}"));
                        return None;
                    }
                    Dec::NeedMore => (),
                }
            }
            let mut b = [0u8; 65536];
            match s.read(&mut b) {
                Ok(0) => return None,
                Ok(n) => buf.extend_from_slice(&b[..n]),
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {
                    if self.stop.load(SeqCst) {
                        return None;
                    }
                }
                Err(_) => return None,
            }
        }
    }
    fn conn(self: &Arc<Self>, i: usize, mut s: TcpStream) {
        let mut r = Rng::new(self.sc.seed ^ (i as u64 * 7919));
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(Duration::from_millis(20)));
        let _ = s.set_write_timeout(Some(Duration::from_secs(20)));
        if self.fault(i, Point::Accept, &mut s) {
            return;
        }
        let mut buf = vec![];
        match self.read(&mut s, &mut buf, i) {
            Some(p) if p.ty == CONNECT => (),
            Some(p) => return self.err(format!("connection {i} starts with packet type {}", p.ty)),
            None => {
                if !self.stop.load(SeqCst) && self.sc.fault.is_none() {
                    self.err(format!("connection {i} is closed without a CONNECT"));
                }
                return;
            }
        }
        if self.fault(i, Point::Connect, &mut s) {
            return;
        }
        let mut ca = Pkt::new(CONNACK);
        if self.sc.connack_props {
            ca.props = vec![(0x12, V::S(format!("assigned-{i}"))), (0x24, V::U8(0)), (0x25, V::U8(0)), (0x27, V::U32(100_000))];
        }
        let t = Instant::now();
        if !self.write(&mut s, &encode(&ca), &mut r) {
            return;
        }
        if self.fault(i, Point::Connack, &mut s) {
            return;
        }
        // which publisher will this be? decided by what it sends, but stalling has to start now
        let peeked = {
            let mut b = [0u8; 1];
            loop {
                match s.peek(&mut b) {
                    Ok(0) => break None,
                    Ok(_) => break Some(b[0]),
                    Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {
                        if self.stop.load(SeqCst) {
                            return;
                        }
                    }
                    Err(_) => break None,
                }
            }
        };
        match peeked.map(|b| b >> 4) {
            Some(SUBSCRIBE) => self.sub(i, s, buf, r),
            Some(PUBLISH) => self.publ(i, s, buf, t, r),
            Some(x) => self.err(format!("connection {i} sends packet type {x} after its CONNECT")),
            None => {
                if !self.stop.load(SeqCst) && self.sc.fault.is_none() {
                    self.err(format!("connection {i} is closed after its CONNECT although the run is not over"));
                }
            }
        }
    }
    fn sub(self: &Arc<Self>, i: usize, mut s: TcpStream, mut buf: Vec<u8>, mut r: Rng) {
        let Some(p) = self.read(&mut s, &mut buf, i) else { return };
        if p.subs.len() != 1 || p.subs[0].0 != self.sc.topic {
            return self.err(format!("subscriber subscribes to {:?} instead of the topic {:?}", p.subs, self.sc.topic));
        }
        let n = {
            let mut g = self.st.lock().unwrap();
            if !g.msgs.is_empty() {
                g.errors.push("a SUBSCRIBE arrives after the first publication".into());
            }
            g.subs.push(SubLog::default());
            g.subs.len() - 1
        };
        if self.fault(i, Point::Subscribe, &mut s) {
            return;
        }
        std::thread::sleep(Duration::from_millis(*self.sc.suback.get(n).unwrap_or(&0)));
        let mut a = Pkt::new(SUBACK);
        a.id = p.id;
        a.codes = vec![0];
        // noted before it is sent: what arrives from now on may rely on it
        self.st.lock().unwrap().subs[n].suback = Some(Instant::now());
        if !self.write(&mut s, &encode(&a), &mut r) {
            return;
        }
        let total = self.total();
        for k in 0..total {
            if self.fault(i, Point::After(k), &mut s) {
                return;
            }
            // wait until it is there and due
            let (bytes, arrived) = {
                let mut g = self.st.lock().unwrap();
                loop {
                    if self.stop.load(SeqCst) {
                        return;
                    }
                    if g.msgs.len() > k {
                        let due = match &self.sc.hold {
                            None => Some(Duration::ZERO),
                            Some(h) if g.msgs.len() == total => {
                                let d = Duration::from_millis(h[n % h.len()][k]);
                                Some(d.saturating_sub(g.msgs[total - 1].1.elapsed()))
                            }
                            Some(_) => None,
                        };
                        if let Some(d) = due {
                            if d.is_zero() {
                                break;
                            }
                            g = self.cv.wait_timeout(g, d.min(Duration::from_millis(20))).unwrap().0;
                            continue;
                        }
                    }
                    g = self.cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                }
                g.msgs[k].clone()
            };
            if k + 1 == total {
                if self.sc.never_last {
                    break;
                }
                if let Some(ms) = self.sc.hold_last {
                    std::thread::sleep(Duration::from_millis(ms));
                }
                // everything but the last byte: nobody may be finished yet
                if !self.write(&mut s, &bytes[..bytes.len() - 1], &mut r) {
                    return;
                }
                std::thread::sleep(Duration::from_millis(if self.sc.hold_last.is_some() { 30 } else { 0 }));
                {
                    let g = self.st.lock().unwrap();
                    let closed: Vec<usize> = g.pubs.iter().filter(|p| p.closed.is_some()).map(|p| p.conn).collect();
                    drop(g);
                    if !closed.is_empty() && self.sc.fault.is_none() {
                        self.err(format!("publisher connections {closed:?} were closed before subscriber {n} had received everything"));
                    }
                }
                let h = arrived.elapsed();
                // counted as complete before the byte is on its way
                {
                    let mut g = self.st.lock().unwrap();
                    g.subs[n].done = Some(Instant::now());
                    g.subs[n].sent.push(Instant::now());
                    g.subs[n].held.push(h);
                }
                if !self.write(&mut s, &bytes[bytes.len() - 1..], &mut r) {
                    return;
                }
            } else {
                let h = arrived.elapsed();
                let ok = self.write(&mut s, &bytes, &mut r);
                let mut g = self.st.lock().unwrap();
                g.subs[n].sent.push(Instant::now());
                g.subs[n].held.push(h);
                drop(g);
                if !ok {
                    if !self.stop.load(SeqCst) && self.sc.fault.is_none() {
                        self.err(format!("subscriber {n} stops receiving after {k} of {total} publications"));
                    }
                    return;
                }
            }
        }
        match self.read(&mut s, &mut buf, i) {
            None => self.st.lock().unwrap().subs[n].closed = Some(Instant::now()),
            Some(p) if p.ty == DISCONNECT => (),
            Some(p) => self.err(format!("subscriber {n} sends packet type {}", p.ty)),
        }
    }
    fn publ(self: &Arc<Self>, i: usize, mut s: TcpStream, mut buf: Vec<u8>, connack: Instant, mut r: Rng) {
        let n = {
            let mut g = self.st.lock().unwrap();
            let acked = g.subs.iter().filter(|s| s.suback.is_some()).count();
            if acked != self.sc.subs {
                g.errors.push(format!("the first publication arrives when {acked} of {} subscriptions are acknowledged", self.sc.subs));
            }
            g.pubs.push(PubLog { conn: i, connack: Some(connack), ..Default::default() });
            g.pubs.len() - 1
        };
        if let Some(ms) = self.sc.stall.get(n) {
            std::thread::sleep(Duration::from_millis(*ms));
        }
        self.st.lock().unwrap().pubs[n].released = Some(Instant::now());
        for k in 0.. {
            if self.fault(i, Point::After(k), &mut s) {
                return;
            }
            let Some(p) = self.read(&mut s, &mut buf, i) else {
                let mut g = self.st.lock().unwrap();
                g.pubs[n].closed = Some(Instant::now());
                if self.stop.load(SeqCst) || self.sc.fault.is_some() {
                    return;
                }
                if k < self.sc.msgs {
                    g.errors.push(format!("a publisher closes its connection after {k} of {} publications", self.sc.msgs));
                } else if g.subs.iter().any(|s| s.done.is_none()) {
                    g.errors.push("a publisher closes its connection before every subscriber has received everything".into());
                }
                return;
            };
            match p.ty {
                PUBLISH => {
                    if p.topic != self.sc.topic || p.qos() != 0 {
                        return self.err(format!("a publication goes to topic {:?} with QoS {} instead of {:?}", p.topic, p.qos(), self.sc.topic));
                    }
                    let mut g = self.st.lock().unwrap();
                    let t = Instant::now();
                    g.pubs[n].at.push(t);
                    g.pubs[n].last = Some(t);
                    g.order.push(n as u8);
                    if g.pubs[n].at.len() > self.sc.msgs {
                        g.errors.push(format!("a publisher sends more than {} publications", self.sc.msgs));
                        return;
                    }
                    g.msgs.push((encode(&p), t));
                    self.cv.notify_all();
                }
                DISCONNECT => (),
                x => return self.err(format!("a publisher sends packet type {x}")),
            }
            let _ = &mut r;
        }
    }
}
pub struct Outcome {
    pub st: St,
    pub code: Option<i32>,
    pub timeout: bool,
    pub out: String,
    pub err: String,
    pub start: Instant,
    pub end: Instant,
    pub at: At,
}
/// a listener the tool can be pointed at in that way, or in the usual one where the machine does not offer it
fn listener(at: At) -> (TcpListener, At) {
    use std::net::ToSocketAddrs;
    let usual = || (TcpListener::bind("127.0.0.1:0").unwrap(), At::V4);
    match at {
        At::V4 => usual(),
        At::V6 => TcpListener::bind("[::1]:0").map_or_else(|_| usual(), |l| (l, at)),
        At::Name => {
            let all: Vec<_> = "localhost:1".to_socket_addrs().map_or(vec![], |i| i.collect());
            // an address that nobody listens at is tried and passed over
            let ok = all.iter().any(|a| a.ip() == std::net::Ipv4Addr::LOCALHOST);
            (usual().0, if ok { at } else { At::V4 })
        }
    }
}
/// Run the tool once against the stand-in.
pub fn run(exe: &str, sc: &Script, args: &[String], limit: f64) -> Outcome {
    let (l, at) = listener(sc.at);
    if sc.small_window {
        let n: i32 = 4096;
        unsafe {
            libc::setsockopt(l.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const _, 4);
        }
    }
    l.set_nonblocking(true).unwrap();
    let port = l.local_addr().unwrap().port();
    let m = Arc::new(Mock { st: Mutex::new(St::default()), cv: Condvar::new(), stop: AtomicBool::new(false), sc: sc.clone() });
    let m2 = m.clone();
    let acc = std::thread::spawn(move || {
        let mut hs = vec![];
        while !m2.stop.load(SeqCst) {
            match l.accept() {
                Ok((s, _)) => {
                    let _ = s.set_nonblocking(false);
                    let i = {
                        let mut g = m2.st.lock().unwrap();
                        g.accepted += 1;
                        g.accepted - 1
                    };
                    let m3 = m2.clone();
                    hs.push(std::thread::spawn(move || m3.conn(i, s)));
                }
                Err(_) => std::thread::sleep(Duration::from_micros(300)),
            }
        }
        // whatever was still opened
        while let Ok((s, _)) = l.accept() {
            drop(s);
            m2.st.lock().unwrap().accepted += 1;
        }
        for h in hs {
            let _ = h.join();
        }
    });
    let start = Instant::now();
    let name = match at {
        At::V6 => format!("[::1]:{port}"),
        At::Name => format!("localhost:{port}"),
        _ => format!("127.0.0.1:{port}"),
    };
    let mut cmd = Command::new(exe);
    if sc.warp > 1 {
        cmd.env("LD_PRELOAD", std::env::var("VERIF_SHIM").expect("VERIF_SHIM")).env("WARP", sc.warp.to_string());
    }
    let mut child: Child = cmd
        .args(match sc.seed % 3 {
            0 => vec!["-e".to_string(), name],
            1 => vec!["--endpoint".to_string(), name],
            _ => vec![format!("--endpoint={name}")],
        })
        .args(args)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("start of the benchmark tool");
    let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let ho = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = o.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let he = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = e.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let mut ticks = 0u64;
    let mut status = None;
    let mut timeout = false;
    loop {
        if let Ok(Some(x)) = child.try_wait() {
            status = Some(x);
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
        ticks += 2;
        // both by the clock and by this thread's own progress, so that a slow machine does not count
        if start.elapsed().as_secs_f64() > limit && ticks as f64 > limit * 400.0 {
            timeout = true;
            m.stop.store(true, SeqCst);
            std::thread::sleep(Duration::from_millis(100));
            let _ = child.kill();
            let _ = child.wait();
            break;
        }
    }
    let end = Instant::now();
    // let the stand-in see how the connections ended
    std::thread::sleep(Duration::from_millis(if timeout { 0 } else { 25 }));
    m.stop.store(true, SeqCst);
    m.cv.notify_all();
    let _ = acc.join();
    let (out, err) = (ho.join().unwrap_or_default(), he.join().unwrap_or_default());
    let st = std::mem::take(&mut *m.st.lock().unwrap());
    Outcome { st, code: status.and_then(|s| s.code()), timeout, out, err, start, end, at }
}
