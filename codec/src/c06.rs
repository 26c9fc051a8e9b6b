//! C06: random sequences of builder calls, legal and illegal, against a shadow model.
use crate::bridge::*;
use crate::*;
use apiformes_packet::prelude as a;
use apiformes_packet::prelude::{MqttPropValue, Packet};
use bytes::{Buf, Bytes};
use refmqtt::wire::{self, *};
use refmqtt::{gen, matcher, rng};

#[derive(Clone)]
enum B {
    Connect(a::Connect),
    ConnAck(a::ConnAck),
    Publish(a::Publish),
    PubAck(a::PubAck),
    PubRec(a::PubRec),
    PubRel(a::PubRel),
    PubComp(a::PubComp),
    Subscribe(a::Subscribe),
    SubAck(a::SubAck),
    Unsubscribe(a::Unsubscribe),
    UnsubAck(a::UnsubAck),
    Disconnect(a::Disconnect),
    Auth(a::Auth),
}
macro_rules! each {
    ($b:expr, $x:ident => $e:expr) => {
        match $b {
            B::Connect($x) => $e,
            B::ConnAck($x) => $e,
            B::Publish($x) => $e,
            B::PubAck($x) => $e,
            B::PubRec($x) => $e,
            B::PubRel($x) => $e,
            B::PubComp($x) => $e,
            B::Subscribe($x) => $e,
            B::SubAck($x) => $e,
            B::Unsubscribe($x) => $e,
            B::UnsubAck($x) => $e,
            B::Disconnect($x) => $e,
            B::Auth($x) => $e,
        }
    };
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Exp {
    Accept,
    Refuse,
    Either,
}
use Exp::*;
/// weaker of the two demands; a refusal demanded by either wins
fn both(x: Exp, y: Exp) -> Exp {
    if x == Refuse || y == Refuse {
        Refuse
    } else if x == Either || y == Either {
        Either
    } else {
        Accept
    }
}
fn str_exp(s: &str) -> Exp {
    if s.len() > 65_535 {
        return Refuse;
    }
    match str_class(s) {
        Class::Ok => Accept,
        Class::Soft => Either,
        Class::Bad => Refuse,
    }
}
/// a string, often at or over a limit
fn any_str(r: &mut Rng) -> String {
    match r.below(30) {
        0 => gen::gstr_len(r, 65_535),
        1 => gen::gstr_len(r, 65_536),
        2 => {
            let n = r.range(65_537, 70_000);
            gen::gstr_len(r, n)
        }
        // few characters but too many bytes
        3 => "中".repeat(21_846),
        4..=8 => {
            let mut s = gen::gstr(r, 30);
            let bad = *r.pick(&['\0', '\u{1}', '\t', '\n', '\u{1f}', '\u{7f}', '\u{80}', '\u{9f}', '\u{fffe}', '\u{ffff}', '\u{fdd0}', '\u{1ffff}', '\u{feff}', '\u{a0}']);
            let mut k = r.below(s.len() + 1);
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.insert(k, bad);
            s
        }
        _ => gen::gstr(r, 40),
    }
}
fn any_bin(r: &mut Rng) -> Vec<u8> {
    match r.below(14) {
        0 => r.bytes(65_535),
        1 => r.bytes(65_536),
        2 => r.bytes(70_000),
        3 => r.bytes(131_072),
        _ => {
            let n = r.below(40);
            r.bytes(n)
        }
    }
}
fn any_topic(r: &mut Rng, name: bool) -> (String, Exp) {
    let s = match r.below(6) {
        0 => any_str(r),
        1 | 2 => gen::filter(r, gen::Cfg { user_pair: false, big: 0 }),
        3 => {
            let mut s = gen::filter(r, gen::Cfg { user_pair: false, big: 0 });
            let mut k = r.below(s.len() + 1);
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.insert_str(k, r.pick::<&str>(&["+", "#", "/+", "#/", "+a"]));
            s
        }
        _ => gen::topic(r, gen::Cfg { user_pair: false, big: 0 }),
    };
    let rule = if name { matcher::valid_topic_name(&s) } else { matcher::valid_filter(&s) };
    let e = if s.is_empty() { Either } else { both(str_exp(&s), if rule { Accept } else { Refuse }) };
    (s, e)
}
struct Call {
    name: String,
    exp: Exp,
    res: Result<(), Perr>,
    /// model after the call if it succeeded
    next: Pkt,
}
fn set_prop(props: &mut Props, id: u8, v: V, multi: bool) {
    if !multi {
        if let Some(p) = props.iter_mut().find(|p| p.0 == id) {
            p.1 = v;
            return;
        }
    }
    props.push((id, v));
}
/// pick a property and a value for it, mostly legal: (id, value, expectation, constructor result)
fn any_prop(r: &mut Rng, owner: u8) -> (u8, V, Exp, Result<MqttPropValue, Perr>) {
    let legal: Vec<u8> = PROPS.iter().filter(|p| p.2.contains(&owner)).map(|p| p.0).collect();
    let id = if r.chance(4, 5) { *r.pick(&legal) } else { PROPS[r.below(PROPS.len())].0 };
    let (k, owners) = prop_info(id).unwrap();
    let k = if k == K::P && !DIALECT.user_pair { K::S } else { k };
    let kind = if r.chance(5, 6) { k } else { *r.pick(&[K::U8, K::U16, K::U32, K::VI, K::S, K::B, K::P]) };
    let mut e = if owners.contains(&owner) && kind == k { Accept } else { Refuse };
    let (v, res, ve) = match kind {
        K::U8 => {
            let x = if r.chance(4, 5) { r.u8() & 1 } else { r.u8() };
            if x <= 1 && r.chance(1, 2) {
                // byte or bool constructor: the code may insist on one of them
                if e == Accept {
                    e = Either;
                }
                (V::U8(x), Ok(MqttPropValue::new_bool(x == 1)), Accept)
            } else {
                if e == Accept {
                    e = Either;
                }
                (V::U8(x), Ok(MqttPropValue::new_u8(x)), Accept)
            }
        }
        K::U16 => {
            let x = r.u16();
            (V::U16(x), Ok(MqttPropValue::new_u16(x)), if x == 0 { Either } else { Accept })
        }
        K::U32 => {
            let x = r.u32();
            (V::U32(x), Ok(MqttPropValue::new_u32(x)), if x == 0 { Either } else { Accept })
        }
        K::VI => {
            let x = *r.pick(&[0u32, 1, 127, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455, 268_435_456, 268_435_457, u32::MAX, 1 << 31]);
            (V::VI(x), MqttPropValue::new_varint(x), if x > 268_435_455 { Refuse } else if x == 0 { Either } else { Accept })
        }
        K::S => {
            let s = any_str(r);
            let x = str_exp(&s);
            let res = MqttPropValue::new_string(arc(&s));
            let x = if id == 0x08 && (s.contains('#') || s.contains('+')) { both(x, Either) } else { x };
            (V::S(s), res, x)
        }
        K::B => {
            let b = any_bin(r);
            let x = if b.len() > 65_535 { Refuse } else { Accept };
            let res = if r.chance(1, 2) {
                MqttPropValue::new_data(&b[..])
            } else {
                let c = b.len() / 3;
                MqttPropValue::new_data((&b[..c]).chain(&b[c..]))
            };
            (V::B(b), res, x)
        }
        K::P => {
            let (s, t) = (any_str(r), any_str(r));
            let x = both(str_exp(&s), str_exp(&t));
            let res = MqttPropValue::new_string_pair(arc(&s), arc(&t));
            (V::P(s, t), res, x)
        }
    };
    (id, v, both(e, ve), res)
}
fn show(v: &V) -> String {
    format!("{v:?}").chars().take(60).collect()
}
/// any value of the wrong constructor is checked where it is made
fn prop_call(r: &mut Rng, owner: u8, b: &mut B, m: &Pkt) -> Call {
    let (id, v, exp, val) = any_prop(r, owner);
    let name = format!("add_prop({:#x}, {})", id, show(&v));
    let mut next = m.clone();
    set_prop(&mut next.props, id, v, id == 0x26);
    let res = match val {
        Err(e) => Err(e),
        Ok(val) => each!(b, x => x.add_prop(prop_of(id), val)),
    };
    Call { name, exp, res, next }
}
fn will(r: &mut Rng, log: &mut Vec<String>, bad: &mut Vec<String>) -> Option<(a::Will, wire::Will)> {
    let (t, e) = any_topic(r, true);
    let p = any_bin(r);
    let e = both(e, if p.len() > 65_535 { Refuse } else { Accept });
    let res = a::Will::new(arc(&t), &p[..]);
    log.push(format!("Will::new({}, {} bytes) -> {}", t.chars().take(40).collect::<String>(), p.len(), res.is_ok()));
    match (&res, e) {
        (Ok(_), Refuse) => bad.push("Will::new accepts a value that cannot be represented".into()),
        (Err(x), Accept) => bad.push(format!("Will::new refuses a legal value: {x:?}")),
        _ => {}
    }
    let mut w = res.ok()?;
    let mut m = wire::Will { props: vec![], topic: t, payload: p };
    for _ in 0..r.below(6) {
        let mut n = m.clone();
        let (name, e, res) = match r.below(4) {
            0 => {
                let (t, e) = any_topic(r, true);
                n.topic = t.clone();
                ("Will::set_topic".to_string(), e, w.set_topic(arc(&t)))
            }
            1 => {
                let p = any_bin(r);
                n.payload = p.clone();
                ("Will::set_payload".to_string(), if p.len() > 65_535 { Refuse } else { Accept }, w.set_payload(&p[..]))
            }
            _ => {
                let (id, v, e, val) = any_prop(r, WILL);
                let name = format!("Will::add_prop({:#x}, {})", id, show(&v));
                set_prop(&mut n.props, id, v, id == 0x26);
                (name, e, val.and_then(|val| w.add_prop(prop_of(id), val)))
            }
        };
        log.push(format!("{name} -> {}", res.is_ok()));
        match (&res, e) {
            (Ok(_), Refuse) => bad.push(format!("{name} accepts a value that cannot be represented")),
            (Err(x), Accept) => bad.push(format!("{name} refuses a legal value: {x:?}")),
            _ => {}
        }
        if res.is_ok() {
            m = n;
        }
    }
    Some((w, m))
}
fn call(r: &mut Rng, b: &mut B, m: &Pkt, log: &mut Vec<String>, bad: &mut Vec<String>) -> Call {
    if r.chance(2, 5) {
        return prop_call(r, m.ty, b, m);
    }
    let mut next = m.clone();
    macro_rules! done {
        ($name:expr, $exp:expr, $res:expr) => {
            return Call { name: $name.to_string(), exp: $exp, res: $res, next }
        };
    }
    macro_rules! code {
        ($x:ident, $f:ident) => {{
            next.reason = gen::reason(r, m.ty);
            $x.set_reason_code($f(next.reason));
            done!(format!("set_reason_code({:#x})", next.reason), Accept, Ok(()))
        }};
    }
    match b {
        B::Connect(x) => match r.below(8) {
            0 => {
                next.keep_alive = r.u16();
                x.set_keep_alive(next.keep_alive);
                done!("set_keep_alive", Accept, Ok(()))
            }
            1 => {
                next.flags |= 2;
                x.set_clean_start();
                done!("set_clean_start", Accept, Ok(()))
            }
            2 => {
                if let Some((w, wm)) = will(r, log, bad) {
                    next.flags |= 4;
                    next.will = Some(wm);
                    x.set_will(w);
                }
                done!("set_will", Accept, Ok(()))
            }
            3 => {
                let q = r.below(3) as u8;
                next.flags = (next.flags & !0x18) | (q << 3);
                let e = if m.will.is_some() { Accept } else { Refuse };
                done!(format!("set_will_qos({q})"), e, x.set_will_qos(qos(q)))
            }
            4 => {
                next.flags |= 0x20;
                let e = if m.will.is_some() { Accept } else { Refuse };
                done!("set_will_retain", e, x.set_will_retain())
            }
            5 => {
                let s = any_str(r);
                next.flags |= 0x80;
                next.username = Some(s.clone());
                done!(format!("set_username({} bytes)", s.len()), str_exp(&s), x.set_username(arc(&s)))
            }
            _ => {
                let p = any_bin(r);
                next.flags |= 0x40;
                next.password = Some(p.clone());
                let e = if p.len() > 65_535 { Refuse } else { Accept };
                done!(format!("set_password({} bytes)", p.len()), e, x.set_password(&p[..]))
            }
        },
        B::ConnAck(x) => {
            if r.chance(1, 3) {
                next.flags |= 1;
                x.set_session_present();
                done!("set_session_present", Accept, Ok(()))
            }
            code!(x, connack_code)
        }
        B::Publish(x) => match r.below(7) {
            0 => {
                next.flags |= 1;
                x.set_retain();
                done!("set_retain", Accept, Ok(()))
            }
            1 => {
                next.flags |= 8;
                x.set_dup();
                done!("set_dup", Accept, Ok(()))
            }
            2 | 3 => {
                let q = r.below(3) as u8;
                next.flags = (next.flags & !6) | (q << 1);
                if q == 0 {
                    next.id = None;
                }
                x.set_qos(qos(q));
                done!(format!("set_qos({q})"), Accept, Ok(()))
            }
            4 => {
                let i = gen::pid(r);
                next.id = Some(i);
                let e = if m.qos() == 0 { Refuse } else { Accept };
                done!(format!("set_packet_identifier({i})"), e, x.set_packet_identifier(i))
            }
            5 => {
                let n = r.below(300);
                next.payload = r.bytes(n);
                let c = r.below(n + 1);
                x.set_payload((&next.payload[..c]).chain(&next.payload[c..]));
                done!(format!("set_payload({n} bytes)"), Accept, Ok(()))
            }
            _ => {
                let n = r.below(300);
                next.payload = r.bytes(n);
                x.set_payload_bytes(Bytes::copy_from_slice(&next.payload));
                done!(format!("set_payload_bytes({n} bytes)"), Accept, Ok(()))
            }
        },
        B::PubAck(x) => code!(x, puback_code),
        B::PubRec(x) => code!(x, pubrec_code),
        B::PubRel(x) => code!(x, pubrel_code),
        B::PubComp(x) => code!(x, pubcomp_code),
        B::Subscribe(x) => {
            let (s, e) = any_topic(r, false);
            let bits = if r.chance(1, 4) { r.u8() & 0x3f } else { *r.pick(&[0u8, 1, 2, 4, 8, 0x0c, 0x10, 0x20, 0x2e, 0x1d, 3, 0x30, 0x33]) };
            let e = both(e, if bits & 3 == 3 || bits & 0x30 == 0x30 { Refuse } else { Accept });
            next.subs.push((s.clone(), bits));
            let o = a::SubscriptionOptions::from_bits(bits).unwrap();
            done!(format!("add_topic({:?}.., {:#x})", s.chars().take(30).collect::<String>(), bits), e, x.add_topic(arc(&s), o))
        }
        B::Unsubscribe(x) => {
            let (s, e) = any_topic(r, false);
            next.filters.push(s.clone());
            done!(format!("add_topic({:?}..)", s.chars().take(30).collect::<String>()), e, x.add_topic(arc(&s)))
        }
        B::SubAck(x) => {
            let c = gen::reason(r, SUBACK);
            next.codes.push(c);
            x.add_reason_code(suback_code(c));
            done!(format!("add_reason_code({c:#x})"), Accept, Ok(()))
        }
        B::UnsubAck(x) => {
            let c = gen::reason(r, UNSUBACK);
            next.codes.push(c);
            x.add_reason_code(unsuback_code(c));
            done!(format!("add_reason_code({c:#x})"), Accept, Ok(()))
        }
        B::Disconnect(_) | B::Auth(_) => prop_call(r, m.ty, b, m),
    }
}
fn start(r: &mut Rng, bad: &mut Vec<String>) -> Option<(B, Pkt, String)> {
    let ty = *r.pick(&[CONNECT, CONNECT, CONNECT, CONNACK, PUBLISH, PUBLISH, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH]);
    let mut m = Pkt::new(ty);
    let id = gen::pid(r);
    let mut name = format!("new(type {ty})");
    let mut judge = |e: Exp, ok: bool, what: String| {
        if (ok && e == Refuse) || (!ok && e == Accept) {
            bad.push(format!("{what}: {}", if ok { "accepted although it cannot be represented" } else { "refused although it is legal" }));
        }
    };
    let b = match ty {
        CONNECT => {
            m.client_id = any_str(r);
            let e = str_exp(&m.client_id);
            let x = a::Connect::new(arc(&m.client_id));
            judge(e, x.is_ok(), format!("Connect::new({} bytes)", m.client_id.len()));
            B::Connect(x.ok()?)
        }
        CONNACK => B::ConnAck(a::ConnAck::new()),
        PUBLISH => {
            let (t, e) = any_topic(r, true);
            let n = r.below(50);
            m.topic = t;
            m.payload = r.bytes(n);
            let x = a::Publish::new(arc(&m.topic), Bytes::copy_from_slice(&m.payload));
            judge(e, x.is_ok(), format!("Publish::new({:?})", m.topic.chars().take(60).collect::<String>()));
            name = format!("Publish::new({:?}, {n} bytes)", m.topic.chars().take(40).collect::<String>());
            B::Publish(x.ok()?)
        }
        DISCONNECT => {
            m.reason = gen::reason(r, ty);
            B::Disconnect(a::Disconnect::new(disconnect_code(m.reason)))
        }
        AUTH => {
            m.reason = gen::reason(r, ty);
            B::Auth(a::Auth::new(auth_code(m.reason)))
        }
        _ => {
            m.id = Some(id);
            match ty {
                PUBACK => B::PubAck(a::PubAck::new(id)),
                PUBREC => B::PubRec(a::PubRec::new(id)),
                PUBREL => B::PubRel(a::PubRel::new(id)),
                PUBCOMP => B::PubComp(a::PubComp::new(id)),
                SUBSCRIBE => B::Subscribe(a::Subscribe::new(id)),
                SUBACK => B::SubAck(a::SubAck::new(id)),
                UNSUBSCRIBE => B::Unsubscribe(a::Unsubscribe::new(id)),
                _ => B::UnsubAck(a::UnsubAck::new(id)),
            }
        }
    };
    Some((b, m, name))
}
/// Add on a copy whatever mandatory part is still missing, then compare the frame with the model.
fn check(b: &B, m: &Pkt) -> Result<(), String> {
    let mut b = b.clone();
    let mut m = m.clone();
    match &mut b {
        B::Publish(x) if m.qos() > 0 && m.id.is_none() => {
            x.set_packet_identifier(77).map_err(|e| format!("set_packet_identifier refused at QoS {}: {e:?}", m.qos()))?;
            m.id = Some(77);
        }
        B::Subscribe(x) if m.subs.is_empty() => {
            x.add_topic(arc("z"), a::SubscriptionOptions::empty()).map_err(|e| format!("{e:?}"))?;
            m.subs.push(("z".into(), 0));
        }
        B::Unsubscribe(x) if m.filters.is_empty() => {
            x.add_topic(arc("z")).map_err(|e| format!("{e:?}"))?;
            m.filters.push("z".into());
        }
        B::SubAck(x) if m.codes.is_empty() => {
            x.add_reason_code(suback_code(0));
            m.codes.push(0);
        }
        B::UnsubAck(x) if m.codes.is_empty() => {
            x.add_reason_code(unsuback_code(0));
            m.codes.push(0);
        }
        _ => {}
    }
    let p: Packet = each!(b, x => x.build());
    let bytes = encode_real(&p);
    if bytes.len() != p.frame_len() {
        return Err(format!("frame_len {} but {} bytes", p.frame_len(), bytes.len()));
    }
    let want = m.normalized();
    match wire::decode(&bytes, DIALECT) {
        Dec::Ok(g) if g.consumed == bytes.len() => {
            let got = g.p.normalized();
            if got != want {
                return Err(format!("the frame says something else than was set:{}", crate::c0x::diff(&got, &want)));
            }
        }
        Dec::Ok(g) => return Err(format!("frame ends after {} of {} bytes", g.consumed, bytes.len())),
        x => return Err(format!("the frame is not well-formed: {x:?}")),
    }
    let mut got = extract(&p);
    if got.ty == PUBLISH && got.qos() == 0 {
        got.id = None;
    }
    if got != want {
        return Err(format!("the accessors say something else than was set:{}", crate::c0x::diff(&got, &want)));
    }
    Ok(())
}
pub fn run() -> i32 {
    let rep = par("C06", "random sequences of 1..14 builder calls on every packet type and on wills, about half of the calls with a value that must be refused (strings/binary over 65535 bytes, forbidden characters, foreign or mistyped properties, wildcards, QoS 3, will options without will, identifier at QoS 0); after every call the packet (completed on a copy where a mandatory part is still missing) is encoded, parsed by the reference decoder and compared with a shadow model. Non-trivial: distinct (type, call, accepted or refused, number of earlier calls).", |e, r| {
        let n = e.share(if e.thorough { 20_000_000 } else { 150_000 });
        for i in 0..n {
            if i % 16 == 0 && e.over() {
                r.count("stopped by time budget", 1);
                break;
            }
            let mut log = vec![];
            let mut bad: Vec<String> = vec![];
            let out = catch(|| -> Result<(), String> {
                let rng = &mut e.rng;
                let Some((mut b, mut m, name)) = start(rng, &mut bad) else {
                    r.count("constructor refused", 1);
                    return Ok(());
                };
                log.push(name);
                check(&b, &m)?;
                for k in 0..rng.range(1, 14) {
                    r.evaluations += 1;
                    let c = call(rng, &mut b, &m, &mut log, &mut bad);
                    let ok = c.res.is_ok();
                    log.push(format!("{} -> {}", c.name, if ok { "ok".into() } else { format!("{:?}", c.res) }));
                    r.count(if ok { "calls accepted" } else { "calls refused" }, 1);
                    let short = c.name.split(|x| x == '(' || x == ',').next().unwrap_or("").to_string();
                    let arg: String = if short == "add_prop" { c.name.chars().take(14).collect() } else { short };
                    r.distinct.insert(rng::fnv(format!("{} {} {} {}", m.ty, arg, ok, k).as_bytes()));
                    match (ok, c.exp) {
                        (true, Refuse) => return Err(format!("{} is accepted although the value cannot be represented in a well-formed frame", c.name)),
                        (false, Accept) => return Err(format!("{} is refused although it is legal: {:?}", c.name, c.res)),
                        _ => {}
                    }
                    if ok {
                        m = c.next;
                    }
                    check(&b, &m).map_err(|x| format!("after {} ({}): {x}", c.name, if ok { "accepted" } else { "refused: nothing may change" }))?;
                }
                Ok(())
            });
            match out {
                Ok(Ok(())) => {}
                Ok(Err(x)) => bad.push(x),
                Err(x) => bad.push(format!("panic: {x}")),
            }
            if i < 2 {
                r.sample(log.join("; ").chars().take(500).collect::<String>());
            }
            for x in bad {
                r.violate("builder calls", format!("{}\ncalls: {}", x.chars().take(1500).collect::<String>(), log.join("; ").chars().take(3000).collect::<String>()));
            }
        }
    });
    rep.finish()
}
