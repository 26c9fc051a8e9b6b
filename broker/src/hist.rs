//! Reference model of the broker driven next to the real one: random histories of connects,
//! subscriptions, publications and disconnects, with every delivery compared against the model.
use crate::cli::*;
use crate::env::*;
use crate::server::*;
use refmqtt::gen;
use refmqtt::matcher::matches;
use refmqtt::report::hexs;
use refmqtt::rng::{fnv, Rng};
use refmqtt::wire::*;
use std::collections::{BTreeMap, HashMap, VecDeque};

#[derive(Clone, Debug)]
pub struct Exp {
    pub p: Pkt,
    /// may or may not arrive (overlapping subscriptions with and without No Local)
    pub opt: bool,
}
pub struct HC {
    pub cli: Cli,
    pub id: String,
    /// publisher number, unique per connection
    pub n: usize,
    pub subs: BTreeMap<String, u8>,
    pub due: HashMap<usize, VecDeque<Exp>>,
    dirty: bool,
    pub max: usize,
}
impl HC {
    fn waiting(&self) -> bool {
        self.due.values().any(|q| q.iter().any(|e| !e.opt))
    }
}
pub struct Hist<'a> {
    pub b: &'a Broker,
    pub cs: Vec<HC>,
    pub log: Vec<String>,
    next: usize,
    uniq: u64,
    sent: u64,
    pub repeated: u64,
    pub tag: String,
    pub deliveries: u64,
    pub shapes: Vec<u64>,
}
pub fn level(r: &mut Rng) -> &'static str {
    r.pick(&["a", "a", "b", "b", "c", "d", "", "é", "x y", "$SYS", "a$", "$", "$b", "aa", "A", "a ", " a", "É", "e\u{301}", "0", "中文", "l-o-n-g-e-r-l-e-v-e-l"])
}
pub fn topic(r: &mut Rng) -> String {
    loop {
        let n = if r.chance(1, 40) { r.range(10, 60) } else { *r.pick(&[1usize, 1, 2, 2, 2, 3, 3, 4, 5]) };
        let mut t = (0..n).map(|_| level(r)).collect::<Vec<_>>().join("/");
        if r.chance(1, 12) {
            t = format!("/{t}");
        }
        if r.chance(1, 12) {
            t.push('/');
        }
        if r.chance(1, 10) {
            t = format!("$SYS/{t}");
        }
        if r.chance(1, 200) {
            t.push_str(&gen::gstr_len(r, 20_000).replace(['#', '+'], "x"));
        }
        if !t.is_empty() && !t.starts_with("$share") && !t.starts_with("$echo/") {
            return t;
        }
    }
}
pub fn filter_for(r: &mut Rng, t: &str) -> String {
    let mut l: Vec<&str> = t.split('/').collect();
    match r.below(10) {
        0..=2 => (),
        3 | 4 => {
            let i = r.below(l.len());
            l[i] = "+";
        }
        5 => {
            for x in l.iter_mut() {
                if r.chance(1, 2) {
                    *x = "+";
                }
            }
        }
        6 | 7 => {
            l.truncate(r.range(0, l.len()));
            l.push("#");
        }
        8 => {
            l.truncate(r.range(0, l.len()));
            for x in l.iter_mut() {
                if r.chance(1, 2) {
                    *x = "+";
                }
            }
            l.push("#");
        }
        _ => {
            let i = r.below(l.len());
            l[i] = level(r);
        }
    }
    let f = l.join("/");
    if f.is_empty() || f.starts_with("$share") {
        "+".into()
    } else {
        f
    }
}
/// must this filter be granted (Some(true)), refused (Some(false)), or is it the broker's choice?
pub fn granted(f: &str, o: u8) -> Option<bool> {
    if o & 3 != 0 || (o >> 4) & 3 != 2 || f.starts_with("$share/") {
        Some(false)
    } else if f.split('/').count() > 100 {
        None
    } else {
        Some(true)
    }
}
/// the part of a subscription list that fits into one packet on any connection
pub fn fitting(subs: &[(String, u8)]) -> &[(String, u8)] {
    let mut n = 0;
    let k = subs.iter().take_while(|s| {
        n += s.0.len() + 3;
        n < 60_000
    });
    &subs[..k.count()]
}
pub fn pub_props(r: &mut Rng) -> Props {
    let mut p: Props = vec![];
    let c = gen::Cfg { user_pair: false, big: 0 };
    if r.chance(1, 2) {
        return p;
    }
    for id in [0x01u8, 0x03, 0x08, 0x09] {
        if r.chance(1, 3) {
            let v = match id {
                0x01 => V::U8(r.below(2) as u8),
                0x08 => V::S(topic(r)),
                _ => gen::value(r, id, c),
            };
            p.push((id, v));
        }
    }
    if r.chance(1, 2) {
        for _ in 0..r.below(5) {
            p.push((0x26, V::S(gen::gstr(r, 12))));
        }
    }
    r.shuffle(&mut p);
    p
}
impl<'a> Hist<'a> {
    pub fn new(b: &'a Broker, tag: &str) -> Hist<'a> {
        Hist { b, cs: vec![], log: vec![], next: 0, uniq: 0, sent: 0, repeated: 0, tag: tag.into(), deliveries: 0, shapes: vec![] }
    }
    pub fn note(&mut self, s: String) {
        if self.log.len() > 400 {
            self.log.drain(..200);
        }
        self.log.push(s);
    }
    pub fn fail<T>(&self, what: &str, detail: String) -> Res<T> {
        let n = self.log.len().saturating_sub(80);
        let extra = self.b.panics();
        bad(
            what.to_string(),
            format!("{detail}\nbroker {:?}\nserver panics: {extra:?}\nhistory (last operations):\n  {}", self.b.cfg, self.log[n..].join("\n  ")),
        )
    }
    fn wrap<T>(&self, r: Res<T>) -> Res<T> {
        match r {
            Ok(x) => Ok(x),
            Err(b) => self.fail(&b.what, b.detail),
        }
    }
    pub fn connect(&mut self, enc: bool, id: &str, max: Option<u32>) -> Res<usize> {
        self.next += 1;
        let n = self.next;
        let mut p = Pkt::connect(id, 60);
        if let Some(m) = max {
            p.props.push((0x27, V::U32(m)));
        }
        self.note(format!("connect #{n} id {id:?} enc {enc} max {max:?}"));
        let (mut cli, ack) = self.wrap(Cli::connect_with(self.b, enc, &p))?;
        cli.name = format!("#{n} {id:?}");
        let id = match ack.prop(0x12) {
            Some(V::S(s)) => s.clone(),
            _ => id.to_string(),
        };
        let mut limit = self.b.cfg.max.min(max.unwrap_or(u32::MAX)) as usize;
        if enc {
            limit = limit.min(65519);
        }
        self.cs.push(HC { cli, id, n, subs: BTreeMap::new(), due: HashMap::new(), dirty: false, max: limit });
        let i = self.cs.len() - 1;
        self.subscribe(i, &[(format!("$echo/{}/{n}", self.tag), OPT)])?;
        Ok(i)
    }
    /// Subscribe with arbitrary options; the model follows the codes the broker is obliged to give.
    pub fn subscribe(&mut self, i: usize, subs: &[(String, u8)]) -> Res<()> {
        self.subscribe_props(i, subs, vec![])
    }
    pub fn subscribe_props(&mut self, i: usize, subs: &[(String, u8)], props: Props) -> Res<()> {
        let subs = fitting(subs);
        let n = self.cs[i].n;
        self.note(format!("subscribe #{n} {subs:?} {props:?}"));
        let pid = 1 + (self.log.len() * 7919 % 65535) as u16;
        let mut p = Pkt { id: Some(pid), subs: subs.to_vec(), ..Pkt::new(SUBSCRIBE) };
        p.props = props;
        self.cs[i].cli.send(&p);
        loop {
            match self.cs[i].cli.recv(limit()) {
                Ev::Pkt(k, _) if k.ty == SUBACK => {
                    if k.id != Some(pid) || k.codes.len() != subs.len() {
                        return self.fail("SUBACK does not fit the SUBSCRIBE", format!("#{n}: {pid} {subs:?} answered by {}", short(&k)));
                    }
                    for ((f, o), c) in subs.iter().zip(&k.codes) {
                        let ok = granted(f, *o).unwrap_or(*c == 0);
                        if ok && *c != 0 {
                            return self.fail("a supported subscription is refused", format!("#{n}: {f:?} options {o:02x} got {c:02x}"));
                        }
                        if !ok && *c < 0x80 {
                            return self.fail("an unsupported subscription is acknowledged as a success", format!("#{n}: {f:?} options {o:02x} got {c:02x}"));
                        }
                        if ok {
                            self.cs[i].subs.insert(f.clone(), *o);
                        }
                    }
                    return Ok(());
                }
                Ev::Pkt(k, _) => self.take(i, k)?,
                e => return self.fail("a SUBSCRIBE is not acknowledged", format!("#{n}: {subs:?}: {}", ev(&e))),
            }
        }
    }
    /// who is owed this publication: (client, optional)
    pub fn targets(&self, i: usize, topic: &str, size: usize) -> Vec<(usize, bool)> {
        let mut v = vec![];
        for (k, c) in self.cs.iter().enumerate() {
            let m: Vec<u8> = c.subs.iter().filter(|(f, _)| matches(f, topic)).map(|(_, o)| *o).collect();
            if m.is_empty() || (self.b.cfg.strict && self.cs[i].cli.enc && !c.cli.enc) || size > c.max {
                continue;
            }
            let nl = m.iter().filter(|o| **o & NL != 0).count();
            if k == i && nl == m.len() {
                continue;
            }
            v.push((k, k == i && nl > 0));
        }
        v
    }
    pub fn publish(&mut self, i: usize, topic: &str, payload: Vec<u8>, props: Props) -> Res<()> {
        let mut p = Pkt { topic: topic.into(), payload, props, ..Pkt::new(PUBLISH) };
        let limit = self.b.cfg.max.min(65_519) as usize - 20;
        if encode(&p).len() > limit {
            p.props.clear();
            let over = encode(&p).len().saturating_sub(limit);
            p.payload.truncate(p.payload.len() - over.min(p.payload.len()));
        }
        // pending publications are pairwise distinct, so that every delivery has one explanation
        let norm = p.normalized();
        if self.cs.iter().any(|c| c.due.values().flatten().any(|e| e.p == norm)) {
            self.uniq += 1;
            p.payload.extend_from_slice(format!("~{}", self.uniq).as_bytes());
        }
        self.sent += 1;
        // now and then the very same once more
        if self.sent % 11 == 0 {
            self.publish_pkt(i, p.clone(), Seg::Whole, &mut Rng::new(1))?;
            self.repeated += 1;
        }
        self.publish_pkt(i, p, Seg::Whole, &mut Rng::new(1))
    }
    pub fn publish_pkt(&mut self, i: usize, p: Pkt, seg: Seg, r: &mut Rng) -> Res<()> {
        let n = self.cs[i].n;
        let size = encode(&p).len();
        self.note(format!("publish #{n} {} {:?}", short(&p), p.props));
        let t = self.targets(i, &p.topic, size);
        self.shapes.push(fnv(format!("{} {} {:?} {}", t.len(), p.topic.split('/').count(), p.props.iter().map(|x| x.0).collect::<Vec<_>>(), p.payload.len().min(50)).as_bytes()));
        let norm = p.normalized();
        for (k, opt) in t {
            self.cs[k].due.entry(n).or_default().push_back(Exp { p: norm.clone(), opt });
        }
        self.cs[i].dirty = true;
        let w = self.cs[i].cli.seal(&encode(&p));
        if !self.cs[i].cli.send_seg(&w, seg, r) {
            return self.fail("the broker closed the connection of a well-behaved client", format!("#{n} cannot send a PUBLISH"));
        }
        Ok(())
    }
    /// a packet arrived at client i: it has to be owed
    pub fn take(&mut self, i: usize, p: Pkt) -> Res<()> {
        let n = self.cs[i].n;
        if p.ty != PUBLISH {
            return self.fail("unexpected packet", format!("#{n} got {}", short(&p)));
        }
        let norm = p.normalized();
        let mut hit = None;
        for (k, q) in &self.cs[i].due {
            for (j, e) in q.iter().enumerate() {
                if e.p == norm {
                    hit = Some((*k, j));
                    break;
                }
                if !e.opt {
                    break;
                }
            }
            if hit.is_some() {
                break;
            }
        }
        if let Some((k, j)) = hit {
            self.cs[i].due.get_mut(&k).unwrap().drain(..=j);
            self.deliveries += 1;
            return Ok(());
        }
        let mut why = "a client received a publication it is not owed (no matching subscription, or a duplicate)";
        let mut near = String::new();
        for q in self.cs[i].due.values() {
            for e in q {
                if e.p == norm {
                    why = "publications of one publisher arrive out of order";
                } else if e.p.topic == norm.topic && (e.p.payload == norm.payload || e.p.props == norm.props) {
                    why = "a publication was altered";
                    near = format!("\nowed: {:?}", e.p);
                }
            }
        }
        let mine: Vec<_> = self.cs[i].subs.iter().map(|(f, o)| (sshort(f), *o)).collect();
        self.fail(why, format!("#{n} got {} props {:?}{near}\nits subscriptions: {mine:?}", short(&p), p.props))
    }
    /// everything published so far has been dispatched and delivered
    pub fn quiesce(&mut self) -> Res<()> {
        for i in 0..self.cs.len() {
            if self.cs[i].dirty {
                let n = self.cs[i].n;
                let t = format!("$echo/{}/{n}", self.tag);
                let tok = format!("q{}", self.deliveries).into_bytes();
                self.publish(i, &t, tok, vec![])?;
                self.cs[i].dirty = false;
            }
        }
        for i in 0..self.cs.len() {
            self.settle(i)?;
        }
        Ok(())
    }
    pub fn settle(&mut self, i: usize) -> Res<()> {
        let d = limit();
        while self.cs[i].waiting() {
            match self.cs[i].cli.recv(d) {
                Ev::Pkt(p, _) => self.take(i, p)?,
                e => {
                    let n = self.cs[i].n;
                    let miss: Vec<_> = self.cs[i]
                        .due
                        .iter()
                        .flat_map(|(k, q)| q.iter().filter(|e| !e.opt).map(move |e| format!("from #{k}: {}", short(&e.p))))
                        .take(5)
                        .collect();
                    let what = match e {
                        Ev::Closed => "the broker closed the connection of a well-behaved client",
                        Ev::Garbage(_) => "the broker sent bytes that are no legal packet for this client",
                        _ => "a publication is never delivered",
                    };
                    let mine: Vec<_> = self.cs[i].subs.iter().map(|(f, o)| (sshort(f), *o)).collect();
                    return self.fail(what, format!("#{n}: {}; owed {miss:?}\nits subscriptions: {mine:?}", ev(&e)));
                }
            }
        }
        for q in self.cs[i].due.values_mut() {
            q.clear();
        }
        Ok(())
    }
    /// nothing more may arrive
    pub fn finish(&mut self) -> Res<()> {
        for _ in 0..2 {
            for c in self.cs.iter_mut() {
                c.dirty = true;
            }
            self.quiesce()?;
        }
        for i in 0..self.cs.len() {
            match self.cs[i].cli.recv(Deadline::new(0.02)) {
                Ev::Timeout => (),
                Ev::Pkt(p, _) => {
                    self.take(i, p)?;
                }
                e => {
                    let n = self.cs[i].n;
                    return self.fail("the connection of a well-behaved client ended", format!("#{n}: {}", ev(&e)));
                }
            }
        }
        self.wrap(self.b.check_panics())
    }
    /// drop a client (everything settled before)
    pub fn close(&mut self, i: usize, r: &mut Rng) -> Res<()> {
        self.quiesce()?;
        let c = self.cs.remove(i);
        let how = r.below(4);
        self.note(format!("close #{} way {how}", c.n));
        let mut cli = c.cli;
        match how {
            0 => drop(cli),
            1 => cli.abort(),
            2 => {
                cli.send(&Pkt::new(DISCONNECT));
                drop(cli);
            }
            _ => {
                cli.send_raw(&[0x30, 0xff]);
                drop(cli);
            }
        }
        Ok(())
    }
    pub fn payload(&mut self, r: &mut Rng) -> Vec<u8> {
        let n = match r.below(30) {
            0..=3 => 0,
            4..=20 => r.range(1, 40),
            21..=27 => r.range(40, 300),
            28 => r.range(1000, 20_000),
            _ => r.range(16_000, 50_000),
        };
        r.bytes(n)
    }
}
pub fn hist_detail(p: &Pkt) -> String {
    format!("{} {}", short(p), hexs(&p.payload))
}
