//! Reference encoder and decoder for MQTT 5.0 control packets.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    U8(u8),
    U16(u16),
    U32(u32),
    VI(u32),
    S(String),
    B(Vec<u8>),
    P(String, String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    U8,
    U16,
    U32,
    VI,
    S,
    B,
    P,
}
pub type Props = Vec<(u8, V)>;

pub const CONNECT: u8 = 1;
pub const CONNACK: u8 = 2;
pub const PUBLISH: u8 = 3;
pub const PUBACK: u8 = 4;
pub const PUBREC: u8 = 5;
pub const PUBREL: u8 = 6;
pub const PUBCOMP: u8 = 7;
pub const SUBSCRIBE: u8 = 8;
pub const SUBACK: u8 = 9;
pub const UNSUBSCRIBE: u8 = 10;
pub const UNSUBACK: u8 = 11;
pub const PINGREQ: u8 = 12;
pub const PINGRESP: u8 = 13;
pub const DISCONNECT: u8 = 14;
pub const AUTH: u8 = 15;
/// pseudo owner for will properties
pub const WILL: u8 = 0;

/// MQTT 5.0 table 2-4: (identifier, type, packets it may appear in)
pub const PROPS: &[(u8, K, &[u8])] = &[
    (0x01, K::U8, &[PUBLISH, WILL]),
    (0x02, K::U32, &[PUBLISH, WILL]),
    (0x03, K::S, &[PUBLISH, WILL]),
    (0x08, K::S, &[PUBLISH, WILL]),
    (0x09, K::B, &[PUBLISH, WILL]),
    (0x0b, K::VI, &[PUBLISH, SUBSCRIBE]),
    (0x11, K::U32, &[CONNECT, CONNACK, DISCONNECT]),
    (0x12, K::S, &[CONNACK]),
    (0x13, K::U16, &[CONNACK]),
    (0x15, K::S, &[CONNECT, CONNACK, AUTH]),
    (0x16, K::B, &[CONNECT, CONNACK, AUTH]),
    (0x17, K::U8, &[CONNECT]),
    (0x18, K::U32, &[WILL]),
    (0x19, K::U8, &[CONNECT]),
    (0x1a, K::S, &[CONNACK]),
    (0x1c, K::S, &[CONNACK, DISCONNECT]),
    (0x1f, K::S, &[CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH]),
    (0x21, K::U16, &[CONNECT, CONNACK]),
    (0x22, K::U16, &[CONNECT, CONNACK]),
    (0x23, K::U16, &[PUBLISH]),
    (0x24, K::U8, &[CONNACK]),
    (0x25, K::U8, &[CONNACK]),
    (
        0x26,
        K::P,
        &[
            CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE,
            UNSUBACK, DISCONNECT, AUTH,
        ],
    ),
    (0x27, K::U32, &[CONNECT, CONNACK]),
    (0x28, K::U8, &[CONNACK]),
    (0x29, K::U8, &[CONNACK]),
    (0x2a, K::U8, &[CONNACK]),
];
pub fn prop_info(id: u8) -> Option<(K, &'static [u8])> {
    PROPS.iter().find(|p| p.0 == id).map(|p| (p.1, p.2))
}
/// properties whose one byte value may only be 0 or 1
pub const BOOL_PROPS: &[u8] = &[0x01, 0x17, 0x19, 0x24, 0x25, 0x28, 0x29, 0x2a];

/// MQTT 5.0 table 2-6 (reason codes per packet)
pub fn reason_codes(ty: u8) -> &'static [u8] {
    match ty {
        CONNACK => &[
            0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99,
            0x9a, 0x9b, 0x9c, 0x9d, 0x9f,
        ],
        PUBACK | PUBREC => &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        PUBREL | PUBCOMP => &[0x00, 0x92],
        SUBACK => &[0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2],
        UNSUBACK => &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91],
        DISCONNECT => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95,
            0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
        ],
        AUTH => &[0x00, 0x18, 0x19],
        _ => &[],
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Will {
    pub props: Props,
    pub topic: String,
    pub payload: Vec<u8>,
}
/// One flat structure for all packets; unused fields stay at their default.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Pkt {
    pub ty: u8,
    /// PUBLISH: header flags; CONNECT: connect flags; CONNACK: acknowledge flags
    pub flags: u8,
    pub keep_alive: u16,
    pub client_id: String,
    pub will: Option<Will>,
    pub username: Option<String>,
    pub password: Option<Vec<u8>>,
    pub reason: u8,
    pub id: Option<u16>,
    pub topic: String,
    pub payload: Vec<u8>,
    pub subs: Vec<(String, u8)>,
    pub filters: Vec<String>,
    pub codes: Vec<u8>,
    pub props: Props,
}
impl Pkt {
    pub fn new(ty: u8) -> Pkt {
        Pkt { ty, ..Default::default() }
    }
    /// Same contents; properties sorted by identifier, order within an identifier kept.
    pub fn normalized(&self) -> Pkt {
        let mut p = self.clone();
        p.props.sort_by_key(|x| x.0);
        if let Some(w) = p.will.as_mut() {
            w.props.sort_by_key(|x| x.0);
        }
        p
    }
    pub fn prop(&self, id: u8) -> Option<&V> {
        self.props.iter().find(|p| p.0 == id).map(|p| &p.1)
    }
    pub fn connect(id: &str, keep_alive: u16) -> Pkt {
        Pkt { flags: 2, keep_alive, client_id: id.into(), ..Pkt::new(CONNECT) }
    }
    pub fn publish(topic: &str, payload: &[u8]) -> Pkt {
        Pkt { topic: topic.into(), payload: payload.to_vec(), ..Pkt::new(PUBLISH) }
    }
    pub fn subscribe(id: u16, subs: &[(&str, u8)]) -> Pkt {
        Pkt { id: Some(id), subs: subs.iter().map(|(f, o)| (f.to_string(), *o)).collect(), ..Pkt::new(SUBSCRIBE) }
    }
    pub fn qos(&self) -> u8 {
        (self.flags >> 1) & 3
    }
}

/// What the decoder treats as legal beyond / below the specification.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Mode {
    /// user properties are string pairs (specification) or single strings (known finding K2)
    pub user_pair: bool,
    /// omitted reason code / property length accepted (specification) or not (known finding K1)
    pub short: bool,
    /// several subscription identifiers in one PUBLISH (specification) or not (known finding K3)
    pub multi_sid: bool,
}
pub const SPEC: Mode = Mode { user_pair: true, short: true, multi_sid: true };

pub fn put_varint(o: &mut Vec<u8>, mut x: u32) {
    loop {
        let b = (x % 128) as u8;
        x /= 128;
        if x > 0 {
            o.push(b | 0x80);
        } else {
            o.push(b);
            return;
        }
    }
}
pub fn varint_len(x: usize) -> usize {
    match x {
        0..=127 => 1,
        128..=16_383 => 2,
        16_384..=2_097_151 => 3,
        _ => 4,
    }
}
fn put_bin(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&(b.len() as u16).to_be_bytes());
    o.extend_from_slice(b);
}
pub fn put_val(o: &mut Vec<u8>, v: &V) {
    match v {
        V::U8(x) => o.push(*x),
        V::U16(x) => o.extend_from_slice(&x.to_be_bytes()),
        V::U32(x) => o.extend_from_slice(&x.to_be_bytes()),
        V::VI(x) => put_varint(o, *x),
        V::S(s) => put_bin(o, s.as_bytes()),
        V::B(b) => put_bin(o, b),
        V::P(a, b) => {
            put_bin(o, a.as_bytes());
            put_bin(o, b.as_bytes());
        }
    }
}
pub fn put_props(o: &mut Vec<u8>, p: &Props) {
    let mut b = vec![];
    for (id, v) in p {
        b.push(*id);
        put_val(&mut b, v);
    }
    put_varint(o, b.len() as u32);
    o.extend_from_slice(&b);
}
pub fn fixed_flags(ty: u8) -> u8 {
    match ty {
        PUBREL | SUBSCRIBE | UNSUBSCRIBE => 2,
        _ => 0,
    }
}
/// Body (everything after the fixed header)
pub fn body(p: &Pkt) -> Vec<u8> {
    let mut o = vec![];
    match p.ty {
        CONNECT => {
            put_bin(&mut o, b"MQTT");
            o.push(5);
            o.push(p.flags);
            o.extend_from_slice(&p.keep_alive.to_be_bytes());
            put_props(&mut o, &p.props);
            put_bin(&mut o, p.client_id.as_bytes());
            if let Some(w) = &p.will {
                put_props(&mut o, &w.props);
                put_bin(&mut o, w.topic.as_bytes());
                put_bin(&mut o, &w.payload);
            }
            if let Some(u) = &p.username {
                put_bin(&mut o, u.as_bytes());
            }
            if let Some(u) = &p.password {
                put_bin(&mut o, u);
            }
        }
        CONNACK => {
            o.push(p.flags);
            o.push(p.reason);
            put_props(&mut o, &p.props);
        }
        PUBLISH => {
            put_bin(&mut o, p.topic.as_bytes());
            if let Some(i) = p.id {
                o.extend_from_slice(&i.to_be_bytes());
            }
            put_props(&mut o, &p.props);
            o.extend_from_slice(&p.payload);
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            o.extend_from_slice(&p.id.unwrap().to_be_bytes());
            o.push(p.reason);
            put_props(&mut o, &p.props);
        }
        SUBSCRIBE => {
            o.extend_from_slice(&p.id.unwrap().to_be_bytes());
            put_props(&mut o, &p.props);
            for (f, x) in &p.subs {
                put_bin(&mut o, f.as_bytes());
                o.push(*x);
            }
        }
        UNSUBSCRIBE => {
            o.extend_from_slice(&p.id.unwrap().to_be_bytes());
            put_props(&mut o, &p.props);
            for f in &p.filters {
                put_bin(&mut o, f.as_bytes());
            }
        }
        SUBACK | UNSUBACK => {
            o.extend_from_slice(&p.id.unwrap().to_be_bytes());
            put_props(&mut o, &p.props);
            o.extend_from_slice(&p.codes);
        }
        PINGREQ | PINGRESP => {}
        DISCONNECT | AUTH => {
            o.push(p.reason);
            put_props(&mut o, &p.props);
        }
        t => panic!("type {t}"),
    }
    o
}
pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(body.len() + 5);
    o.push(first);
    put_varint(&mut o, body.len() as u32);
    o.extend_from_slice(body);
    o
}
pub fn encode(p: &Pkt) -> Vec<u8> {
    let fl = if p.ty == PUBLISH { p.flags } else { fixed_flags(p.ty) };
    frame((p.ty << 4) | fl, &body(p))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    /// not all announced bytes are there yet
    NeedMore,
    /// violates the syntax; the second field is the end of the frame where the header declares one
    Bad(&'static str, Option<usize>),
    Ok(Box<Good>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Good {
    pub p: Pkt,
    pub consumed: usize,
    /// legal syntax, but in a zone where a receiver may reasonably also refuse (value ranges,
    /// discouraged characters, semantic protocol errors): no verdict is demanded
    pub soft: Option<&'static str>,
}

struct Rd<'a> {
    b: &'a [u8],
    mode: Mode,
    soft: Option<&'static str>,
}
type R<T> = Result<T, &'static str>;
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() < n {
            return Err("field runs past the end of its enclosing length");
        }
        let (a, r) = self.b.split_at(n);
        self.b = r;
        Ok(a)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn u32(&mut self) -> R<u32> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn varint(&mut self) -> R<u32> {
        let mut v = 0u32;
        for i in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u32) << (7 * i);
            if b & 0x80 == 0 {
                if b == 0 && i > 0 {
                    return Err("over-long variable byte integer");
                }
                return Ok(v);
            }
        }
        Err("variable byte integer too long")
    }
    fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> R<String> {
        let b = self.bin()?;
        let s = String::from_utf8(b).map_err(|_| "ill-formed UTF-8")?;
        match str_class(&s) {
            Class::Bad => Err("forbidden character in string"),
            Class::Soft => {
                self.soft = Some("discouraged character");
                Ok(s)
            }
            Class::Ok => Ok(s),
        }
    }
    fn props(&mut self, owner: u8) -> R<Props> {
        let n = self.varint()? as usize;
        let mut r = Rd { b: self.take(n)?, mode: self.mode, soft: None };
        let mut out: Props = vec![];
        while !r.b.is_empty() {
            let id = r.varint()?;
            if id > 0xff {
                return Err("unknown property");
            }
            let id = id as u8;
            let (k, owners) = prop_info(id).ok_or("unknown property")?;
            if !owners.contains(&owner) {
                return Err("property not allowed in this packet");
            }
            let multi = id == 0x26 || (id == 0x0b && owner == PUBLISH && self.mode.multi_sid);
            if !multi && out.iter().any(|p| p.0 == id) {
                return Err("property repeated");
            }
            let v = match k {
                K::U8 => V::U8(r.u8()?),
                K::U16 => V::U16(r.u16()?),
                K::U32 => V::U32(r.u32()?),
                K::VI => V::VI(r.varint()?),
                K::S => V::S(r.str()?),
                K::B => V::B(r.bin()?),
                K::P if self.mode.user_pair => V::P(r.str()?, r.str()?),
                K::P => V::S(r.str()?),
            };
            // value ranges: protocol errors on which no verdict is demanded
            let range = match (&v, id) {
                (V::U8(x), _) if BOOL_PROPS.contains(&id) => *x > 1,
                (V::U16(0), 0x21) | (V::U16(0), 0x23) | (V::U32(0), 0x27) | (V::VI(0), 0x0b) => true,
                (V::S(s), 0x08) => s.contains('#') || s.contains('+'),
                _ => false,
            };
            if range {
                r.soft = Some("property value out of range");
            }
            out.push((id, v));
        }
        if out.iter().any(|p| p.0 == 0x16) && !out.iter().any(|p| p.0 == 0x15) {
            r.soft = Some("authentication data without method");
        }
        if r.soft.is_some() {
            self.soft = r.soft;
        }
        Ok(out)
    }
}
pub enum Class {
    Ok,
    Soft,
    Bad,
}
pub fn str_class(s: &str) -> Class {
    let mut soft = false;
    for c in s.chars() {
        let u = c as u32;
        if u <= 0x1f || (0x7f..=0x9f).contains(&u) {
            return Class::Bad;
        }
        if (0xfdd0..=0xfdef).contains(&u) || (u & 0xfffe) == 0xfffe {
            soft = true;
        }
    }
    if soft {
        Class::Soft
    } else {
        Class::Ok
    }
}

/// Header analysis: (first byte, body offset, body length) or why not.
pub enum Head {
    NeedMore,
    BadLength,
    Ok { at: usize, len: usize, minimal: bool },
}
pub fn head(b: &[u8]) -> Head {
    if b.len() < 2 {
        return Head::NeedMore;
    }
    let mut v = 0usize;
    for i in 0..4 {
        if b.len() < 2 + i {
            return Head::NeedMore;
        }
        let x = b[1 + i];
        v |= ((x & 0x7f) as usize) << (7 * i);
        if x & 0x80 == 0 {
            return Head::Ok { at: 2 + i, len: v, minimal: !(x == 0 && i > 0) };
        }
    }
    Head::BadLength
}

pub fn decode(b: &[u8], mode: Mode) -> Dec {
    let (at, len) = match head(b) {
        Head::NeedMore => return Dec::NeedMore,
        Head::BadLength => return Dec::Bad("remaining length longer than four bytes", None),
        Head::Ok { at, len, minimal } => {
            if b.len() < at + len {
                return Dec::NeedMore;
            }
            if !minimal {
                return Dec::Bad("over-long remaining length", Some(at + len));
            }
            (at, len)
        }
    };
    let mut r = Rd { b: &b[at..at + len], mode, soft: None };
    match body_decode(b[0], &mut r) {
        Err(e) => Dec::Bad(e, Some(at + len)),
        Ok(p) => Dec::Ok(Box::new(Good { p, consumed: at + len, soft: r.soft })),
    }
}
fn body_decode(first: u8, r: &mut Rd) -> R<Pkt> {
    let ty = first >> 4;
    let fl = first & 0xf;
    if ty == 0 {
        return Err("reserved packet type");
    }
    if ty != PUBLISH && fl != fixed_flags(ty) {
        return Err("reserved header flags");
    }
    let mut p = Pkt::new(ty);
    match ty {
        CONNECT => {
            if r.str()? != "MQTT" {
                return Err("protocol name");
            }
            if r.u8()? != 5 {
                return Err("protocol version");
            }
            p.flags = r.u8()?;
            if p.flags & 1 != 0 {
                return Err("reserved connect flag");
            }
            let (will, wq, wr) = (p.flags & 4 != 0, (p.flags >> 3) & 3, p.flags & 0x20 != 0);
            if wq == 3 {
                return Err("will QoS 3");
            }
            if !will && (wq != 0 || wr) {
                return Err("will flags without will");
            }
            p.keep_alive = r.u16()?;
            p.props = r.props(CONNECT)?;
            p.client_id = r.str()?;
            if will {
                let props = r.props(WILL)?;
                let topic = r.str()?;
                if topic.contains('#') || topic.contains('+') {
                    return Err("wildcard in will topic");
                }
                if topic.is_empty() {
                    r.soft = Some("will topic");
                }
                p.will = Some(Will { props, topic, payload: r.bin()? });
            }
            if p.flags & 0x80 != 0 {
                p.username = Some(r.str()?);
            }
            if p.flags & 0x40 != 0 {
                p.password = Some(r.bin()?);
            }
        }
        CONNACK => {
            p.flags = r.u8()?;
            if p.flags > 1 {
                return Err("reserved connack flags");
            }
            p.reason = r.u8()?;
            p.props = r.props(CONNACK)?;
            if p.flags == 1 && p.reason != 0 {
                r.soft = Some("session present with failure");
            }
        }
        PUBLISH => {
            p.flags = fl;
            let q = (fl >> 1) & 3;
            if q == 3 {
                return Err("QoS 3");
            }
            if q == 0 && fl & 8 != 0 {
                r.soft = Some("DUP with QoS 0");
            }
            p.topic = r.str()?;
            if p.topic.contains('#') || p.topic.contains('+') {
                return Err("wildcard in topic name");
            }
            if q > 0 {
                p.id = Some(r.u16()?);
            }
            p.props = r.props(PUBLISH)?;
            if p.topic.is_empty() && p.prop(0x23).is_none() {
                r.soft = Some("empty topic without alias");
            }
            p.payload = r.take(r.b.len())?.to_vec();
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            p.id = Some(r.u16()?);
            if r.b.is_empty() && r.mode.short {
                // reason code and properties omitted
            } else {
                p.reason = r.u8()?;
                if !(r.b.is_empty() && r.mode.short) {
                    p.props = r.props(ty)?;
                }
            }
        }
        SUBSCRIBE => {
            p.id = Some(r.u16()?);
            p.props = r.props(ty)?;
            while !r.b.is_empty() {
                let f = r.str()?;
                if !crate::matcher::valid_filter(&f) {
                    return Err("ill-formed topic filter");
                }
                if f.is_empty() || f.starts_with("$share") {
                    r.soft = Some("empty or shared filter");
                }
                let o = r.u8()?;
                if o & 3 == 3 {
                    return Err("QoS 3");
                }
                if (o >> 4) & 3 == 3 {
                    return Err("retain handling 3");
                }
                if o & 0xc0 != 0 {
                    return Err("reserved subscription option bits");
                }
                p.subs.push((f, o));
            }
            if p.subs.is_empty() {
                return Err("no topic filters");
            }
        }
        UNSUBSCRIBE => {
            p.id = Some(r.u16()?);
            p.props = r.props(ty)?;
            while !r.b.is_empty() {
                let f = r.str()?;
                if !crate::matcher::valid_filter(&f) {
                    return Err("ill-formed topic filter");
                }
                if f.is_empty() || f.starts_with("$share") {
                    r.soft = Some("empty or shared filter");
                }
                p.filters.push(f);
            }
            if p.filters.is_empty() {
                return Err("no topic filters");
            }
        }
        SUBACK | UNSUBACK => {
            p.id = Some(r.u16()?);
            p.props = r.props(ty)?;
            p.codes = r.take(r.b.len())?.to_vec();
            if p.codes.is_empty() {
                return Err("no reason codes");
            }
            if p.codes.iter().any(|c| !reason_codes(ty).contains(c)) {
                return Err("illegal reason code");
            }
        }
        PINGREQ | PINGRESP => {}
        DISCONNECT | AUTH => {
            if r.b.is_empty() && r.mode.short {
                // both omitted: reason code 0
            } else {
                p.reason = r.u8()?;
                if r.b.is_empty() && r.mode.short {
                    if ty == AUTH {
                        r.soft = Some("AUTH with reason code only");
                    }
                } else {
                    p.props = r.props(ty)?;
                }
            }
        }
        _ => unreachable!(),
    }
    if !r.b.is_empty() {
        return Err("trailing bytes in frame");
    }
    if matches!(ty, CONNACK | PUBACK | PUBREC | PUBREL | PUBCOMP | DISCONNECT | AUTH)
        && !reason_codes(ty).contains(&p.reason)
    {
        return Err("illegal reason code");
    }
    if p.id == Some(0) {
        r.soft = Some("packet identifier 0");
    }
    Ok(p)
}
#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn roundtrip() {
        let mut r = crate::rng::Rng::new(5);
        for i in 0..60_000u32 {
            let pair = i % 2 == 0;
            let p = crate::gen::packet(&mut r, (i % 15 + 1) as u8, crate::gen::Cfg { user_pair: pair, big: 70_000 });
            let b = encode(&p);
            match decode(&b, Mode { user_pair: pair, ..SPEC }) {
                Dec::Ok(g) => {
                    assert_eq!(g.soft, None, "{p:?}");
                    assert_eq!(g.p, p);
                    assert_eq!(g.consumed, b.len());
                }
                x => panic!("{x:?} {p:?}"),
            }
            let (m, _) = crate::mutate::mutant(&mut r, &p);
            decode(&m, SPEC);
        }
    }
}
