//! Wire-level MQTT clients written against the reference codec, plain and over Noise.
use crate::env::*;
use crate::server::*;
use refmqtt::report::hexs;
use refmqtt::rng::Rng;
use refmqtt::wire::*;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// The dialect of the code under test (see known-findings.txt: user properties are single strings).
pub const DIALECT: Mode = Mode { user_pair: false, short: true, multi_sid: true };

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// packet and its size on the wire
    Pkt(Pkt, usize),
    Closed,
    Timeout,
    /// the broker sent something that is no packet
    Garbage(String),
}
/// How the bytes are cut into segments
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Seg {
    Whole,
    EachByte,
    Random,
    /// with pauses in between
    Slow,
}
pub struct Cli {
    pub name: String,
    pub enc: bool,
    pub s: TcpStream,
    /// shared by the two halves of a split client
    tr: Option<Arc<Mutex<snow::TransportState>>>,
    raw: Vec<u8>,
    at: usize,
    pub closed: bool,
    /// maximum packet size announced to the broker
    pub announced: Option<u32>,
    /// raw bytes received, kept when wanted
    pub sniff: Option<Vec<u8>>,
}
pub fn tcp(a: SocketAddr) -> Res<TcpStream> {
    let d = limit();
    loop {
        match TcpStream::connect_timeout(&a, Duration::from_secs(2)) {
            Ok(s) => {
                let _ = s.set_nodelay(true);
                quickack(&s);
                let _ = s.set_read_timeout(Some(Duration::from_millis(20)));
                let _ = s.set_write_timeout(Some(Duration::from_millis(200)));
                return Ok(s);
            }
            Err(e) if d.over() => return bad("the broker does not accept connections", format!("{e}")),
            Err(_) => std::thread::sleep(Duration::from_millis(10)),
        }
    }
}
/// no delayed acknowledgements: the broker's side waits for them before it sends small packets
fn quickack(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let n: i32 = 1;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &n as *const _ as *const _, 4);
    }
}
pub fn noise_frame(payload: &[u8]) -> Vec<u8> {
    let mut v = (payload.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(payload);
    v
}
/// Is this client to use the encrypted listener? Not where the library is built without it.
pub fn crypt(enc: bool) -> bool {
    enc && cfg!(feature = "noise")
}
impl Cli {
    fn wrap(name: &str, enc: bool, s: TcpStream) -> Cli {
        Cli { name: name.into(), enc, s, tr: None, raw: vec![], at: 0, closed: false, announced: None, sniff: None }
    }
    pub fn set_tr(&mut self, t: snow::TransportState) {
        self.tr = Some(Arc::new(Mutex::new(t)));
    }
    pub fn drop_tr(&mut self) {
        self.tr = None;
    }
    /// a half to send with (the result) and one to receive with (self)
    pub fn sender(&self) -> Cli {
        let mut c = Cli::wrap(&self.name, self.enc, self.s.try_clone().expect("clone of a socket"));
        c.tr = self.tr.clone();
        c
    }
    /// transport only: TCP, and the Noise handshake for encrypted ones
    pub fn open(b: &Broker, enc: bool, name: &str) -> Res<Cli> {
        let enc = crypt(enc);
        let mut c = Cli::wrap(name, enc, tcp(if enc { b.noise } else { b.mqtt })?);
        if enc {
            match c.handshake(&b.key) {
                Ok(true) => (),
                Ok(false) => return bad("a correct Noise handshake fails", name.to_string()),
                Err(e) => return Err(e),
            }
        }
        Ok(c)
    }
    pub fn open_raw(b: &Broker, enc: bool, name: &str) -> Res<Cli> {
        let enc = crypt(enc);
        Ok(Cli::wrap(name, enc, tcp(if enc { b.noise } else { b.mqtt })?))
    }
    /// Noise XK as initiator; false when the broker did not go along
    pub fn handshake(&mut self, remote: &[u8; 32]) -> Res<bool> {
        let b = snow::Builder::new(NOISE.parse().unwrap());
        let kp = b.generate_keypair().unwrap();
        let mut hs = b.local_private_key(&kp.private).remote_public_key(remote).build_initiator().unwrap();
        let mut buf = [0u8; 300];
        let n = hs.write_message(&[], &mut buf).unwrap();
        if !self.send_raw(&noise_frame(&buf[..n])) {
            return Ok(false);
        }
        let m = match self.raw_frame(limit()) {
            Some(m) => m,
            None => return Ok(false),
        };
        let mut out = [0u8; 300];
        if hs.read_message(&m, &mut out).is_err() {
            return Ok(false);
        }
        let n = hs.write_message(&[], &mut buf).unwrap();
        if !self.send_raw(&noise_frame(&buf[..n])) {
            return Ok(false);
        }
        self.set_tr(hs.into_transport_mode().unwrap());
        Ok(true)
    }
    /// one length-delimited frame, None on close or timeout
    pub fn raw_frame(&mut self, d: Deadline) -> Option<Vec<u8>> {
        loop {
            let a = &self.raw[self.at..];
            if a.len() >= 4 {
                let n = u32::from_be_bytes([a[0], a[1], a[2], a[3]]) as usize;
                if a.len() >= 4 + n {
                    let m = a[4..4 + n].to_vec();
                    self.at += 4 + n;
                    return Some(m);
                }
            }
            if !self.fill(&d)? {
                return None;
            }
        }
    }
    /// read more: Some(true) got bytes, Some(false) closed, None deadline over
    fn fill(&mut self, d: &Deadline) -> Option<bool> {
        if self.closed {
            return Some(false);
        }
        if self.at > 0 && (self.at == self.raw.len() || self.at > 1 << 20) {
            self.raw.drain(..self.at);
            self.at = 0;
        }
        let mut b = [0u8; 65536];
        loop {
            match self.s.read(&mut b) {
                Ok(0) => {
                    self.closed = true;
                    return Some(false);
                }
                Ok(n) => {
                    quickack(&self.s);
                    self.raw.extend_from_slice(&b[..n]);
                    if let Some(s) = self.sniff.as_mut() {
                        s.extend_from_slice(&b[..n]);
                    }
                    return Some(true);
                }
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {
                    if d.over() {
                        return None;
                    }
                }
                Err(_) => {
                    self.closed = true;
                    return Some(false);
                }
            }
        }
    }
    pub fn recv(&mut self, d: Deadline) -> Ev {
        loop {
            if let Some(tr) = self.tr.as_ref() {
                let a = &self.raw[self.at..];
                if a.len() >= 4 {
                    let n = u32::from_be_bytes([a[0], a[1], a[2], a[3]]) as usize;
                    if n > 65535 {
                        return Ev::Garbage(format!("noise frame of {n} bytes"));
                    }
                    if a.len() >= 4 + n {
                        let mut out = vec![0u8; n];
                        let r = tr.lock().unwrap().read_message(&a[4..4 + n], &mut out);
                        let e = hexs(&a[..4 + n]);
                        self.at += 4 + n;
                        return match r {
                            Err(x) => Ev::Garbage(format!("undecryptable message {x:?} {e}")),
                            Ok(k) => match decode(&out[..k], DIALECT) {
                                Dec::Ok(g) if g.consumed == k => self.got(g.p, k),
                                x => Ev::Garbage(format!("message is not exactly one packet: {} {x:?}", hexs(&out[..k]))),
                            },
                        };
                    }
                }
            } else if self.at < self.raw.len() {
                match decode(&self.raw[self.at..], DIALECT) {
                    Dec::Ok(g) => {
                        self.at += g.consumed;
                        return self.got(g.p, g.consumed);
                    }
                    Dec::Bad(w, _) => return Ev::Garbage(format!("{w}: {}", hexs(&self.raw[self.at..]))),
                    Dec::NeedMore => (),
                }
            }
            match self.fill(&d) {
                Some(true) => (),
                Some(false) if self.at < self.raw.len() => {
                    let g = hexs(&self.raw[self.at..]);
                    self.at = self.raw.len();
                    return Ev::Garbage(format!("connection closed in the middle of a packet: {g}"));
                }
                Some(false) => return Ev::Closed,
                None => return Ev::Timeout,
            }
        }
    }
    fn got(&self, p: Pkt, n: usize) -> Ev {
        if let Some(m) = self.announced {
            if n > m as usize {
                return Ev::Garbage(format!("packet of {n} bytes although the client announced a maximum of {m}: {:?}", short(&p)));
            }
        }
        Ev::Pkt(p, n)
    }
    pub fn send_raw(&mut self, b: &[u8]) -> bool {
        self.send_for(b, 30.0)
    }
    /// gives up after that many seconds: the broker may have stopped reading from this client
    pub fn send_for(&mut self, mut b: &[u8], secs: f64) -> bool {
        let d = Deadline::new(secs);
        while !b.is_empty() {
            match self.s.write(b) {
                Ok(n) => b = &b[n..],
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {
                    if d.over() {
                        return false;
                    }
                }
                Err(_) => return false,
            }
        }
        true
    }
    /// what travels for this packet content (encrypts on Noise; one message per call)
    pub fn seal(&mut self, b: &[u8]) -> Vec<u8> {
        match self.tr.as_ref() {
            None => b.to_vec(),
            Some(t) => {
                let mut o = vec![0u8; b.len() + 32];
                let n = t.lock().unwrap().write_message(b, &mut o).expect("noise write");
                noise_frame(&o[..n])
            }
        }
    }
    pub fn send_bytes(&mut self, b: &[u8]) -> bool {
        let w = self.seal(b);
        self.send_raw(&w)
    }
    pub fn send(&mut self, p: &Pkt) -> bool {
        self.send_bytes(&encode(p))
    }
    pub fn send_seg(&mut self, w: &[u8], seg: Seg, r: &mut Rng) -> bool {
        let mut at = 0;
        while at < w.len() {
            let n = match seg {
                Seg::Whole => w.len(),
                Seg::EachByte => 1,
                Seg::Random | Seg::Slow => *r.pick(&[1usize, 2, 3, 5, 8, 20, 100, 1000, 5000]),
            };
            let e = (at + n).min(w.len());
            if !self.send_raw(&w[at..e]) {
                return false;
            }
            at = e;
            match seg {
                Seg::Slow => std::thread::sleep(Duration::from_micros(r.below(3000) as u64)),
                Seg::EachByte if r.chance(1, 4) => std::thread::sleep(Duration::from_micros(300)),
                Seg::Random if r.chance(1, 3) => std::thread::sleep(Duration::from_micros(r.below(800) as u64)),
                _ => (),
            }
        }
        true
    }
    /// connect packet, success CONNACK demanded
    pub fn connect_with(b: &Broker, enc: bool, p: &Pkt) -> Res<(Cli, Pkt)> {
        let mut c = Cli::open(b, enc, &p.client_id)?;
        if let Some(V::U32(m)) = p.prop(0x27) {
            c.announced = Some(*m);
        }
        c.send(p);
        match c.recv(limit()) {
            Ev::Pkt(k, _) if k.ty == CONNACK && k.reason == 0 => Ok((c, k)),
            e => bad("a supported CONNECT is not answered with a success CONNACK", format!("client {:?} enc {enc}: {}\nconnect {:?}", p.client_id, ev(&e), p)),
        }
    }
    pub fn connect(b: &Broker, enc: bool, id: &str) -> Res<Cli> {
        Ok(Cli::connect_with(b, enc, &Pkt::connect(id, 60))?.0)
    }
    /// subscribe and wait for the SUBACK; other packets that arrive meanwhile are returned
    pub fn subscribe(&mut self, id: u16, subs: &[(&str, u8)]) -> Res<(Vec<u8>, Vec<Pkt>)> {
        let p = Pkt::subscribe(id, subs);
        if !self.send(&p) {
            return bad("cannot send a SUBSCRIBE", self.name.clone());
        }
        let mut other = vec![];
        loop {
            match self.recv(limit()) {
                Ev::Pkt(k, _) if k.ty == SUBACK => {
                    if k.id != Some(id) || k.codes.len() != subs.len() {
                        return bad("SUBACK does not fit the SUBSCRIBE", format!("{}: {p:?} answered by {k:?}", self.name));
                    }
                    return Ok((k.codes, other));
                }
                Ev::Pkt(k, _) => other.push(k),
                e => return bad("a SUBSCRIBE is not acknowledged", format!("{}: {p:?}: {}", self.name, ev(&e))),
            }
        }
    }
    pub fn sub_ok(&mut self, subs: &[(&str, u8)]) -> Res<()> {
        let (c, o) = self.subscribe(77, subs)?;
        if c.iter().any(|x| *x != 0) {
            return bad("a supported subscription is refused", format!("{} {subs:?} -> {c:?}", self.name));
        }
        if let Some(p) = o.first() {
            return bad("unexpected packet", format!("{} got {} while subscribing", self.name, short(p)));
        }
        Ok(())
    }
    pub fn publish(&mut self, topic: &str, payload: &[u8]) -> bool {
        self.send(&Pkt::publish(topic, payload))
    }
    /// the next packet has to be this publication
    pub fn expect_pub(&mut self, topic: &str, payload: &[u8]) -> Res<()> {
        match self.recv(limit()) {
            Ev::Pkt(p, _) if p.ty == PUBLISH && p.topic == topic && p.payload == payload => Ok(()),
            e => bad("expected publication did not arrive", format!("{}: expected topic {topic:?} payload {}, got {}", self.name, hexs(payload), ev(&e))),
        }
    }
    pub fn expect_closed(&mut self, what: &str) -> Res<Vec<Pkt>> {
        let mut v = vec![];
        let d = limit();
        loop {
            match self.recv(d) {
                Ev::Pkt(p, _) => v.push(p),
                Ev::Closed => return Ok(v),
                // cut off in the middle of a packet: closed all the same
                Ev::Garbage(_) if self.closed => return Ok(v),
                e => return bad(format!("connection is not closed {what}"), format!("{}: {}; before: {:?}", self.name, ev(&e), v.iter().map(short).collect::<Vec<_>>())),
            }
        }
    }
    /// closed by the broker, whatever it may have sent before
    pub fn expect_end(&mut self, what: &str) -> Res<()> {
        let d = limit();
        loop {
            self.raw.clear();
            self.at = 0;
            match self.fill(&d) {
                Some(true) => (),
                Some(false) => return Ok(()),
                None => return bad(format!("connection is not closed {what}"), self.name.clone()),
            }
        }
    }
    /// reset instead of an orderly close
    pub fn abort(self) {
        use std::os::fd::AsRawFd;
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32);
        }
    }
    pub fn half_close(&self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
    /// shrink the receive window so that the broker soon cannot write any more
    pub fn small_window(&self) {
        self.window(4096)
    }
    pub fn window(&self, n: i32) {
        use std::os::fd::AsRawFd;
        unsafe {
            libc::setsockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const _, 4);
        }
    }
}
pub fn short(p: &Pkt) -> String {
    match p.ty {
        PUBLISH => format!("PUBLISH(flags {} topic {:?} payload {} props {:?})", p.flags, sshort(&p.topic), hexs(&p.payload), p.props.len()),
        SUBACK => format!("SUBACK(id {:?} {:02x?})", p.id, p.codes),
        CONNACK => format!("CONNACK(flags {} reason {:02x} {:?})", p.flags, p.reason, p.props),
        DISCONNECT => format!("DISCONNECT({:02x})", p.reason),
        _ => format!("type {}", p.ty),
    }
}
pub fn sshort(s: &str) -> String {
    if s.len() <= 80 {
        s.to_string()
    } else {
        format!("{}..({} bytes)", s.chars().take(40).collect::<String>(), s.len())
    }
}
pub fn ev(e: &Ev) -> String {
    match e {
        Ev::Pkt(p, n) => format!("{} ({n} bytes)", short(p)),
        Ev::Closed => "connection closed".into(),
        Ev::Timeout => "nothing (timeout)".into(),
        Ev::Garbage(g) => format!("garbage: {g}"),
    }
}
/// subscription options of the broker's supported kind: QoS 0, retain handling 2
pub const OPT: u8 = 0x20;
pub const NL: u8 = 0x04;
pub const RAP: u8 = 0x08;
