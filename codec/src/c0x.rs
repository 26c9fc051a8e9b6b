//! C02, C03, C04, C05, C07, C08
use crate::bridge::*;
use crate::bufs::*;
use crate::*;
use apiformes_packet::prelude::*;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use refmqtt::wire::{self, *};
use refmqtt::{gen, matcher, mutate, rng};
use std::collections::VecDeque;

fn cfg(big: usize) -> gen::Cfg {
    gen::Cfg { user_pair: DIALECT.user_pair, big }
}
fn short(p: &Pkt) -> String {
    let s = format!("{p:?}");
    s.chars().take(1200).collect()
}
fn key(s: &str) -> u64 {
    rng::fnv(s.as_bytes())
}
/// (verdict, consumed)
fn dec<B: Buf>(b: B) -> Result<(Result<Packet, Perr>, usize), String> {
    let mut c = Count::new(b);
    let r = catch(|| Packet::from_bytes(&mut c))?;
    let u = c.consumed();
    Ok((r, u))
}
pub fn diff(a: &Pkt, b: &Pkt) -> String {
    macro_rules! f { ($o:ident, $($n:ident),*) => { $( if a.$n != b.$n { $o.push_str(&format!(" {}: {:?} vs {:?};", stringify!($n), a.$n, b.$n).chars().take(400).collect::<String>()); } )* } }
    let mut o = String::new();
    f!(o, ty, flags, keep_alive, client_id, will, username, password, reason, id, topic, payload, subs, filters, codes, props);
    o
}

// ---------------------------------------------------------------- C02
fn roundtrip(p: &Pkt, r: &mut Report, tail: &[u8], bufkind: usize) {
    r.evaluations += 1;
    if r.distinct.insert(key(&gen::shape(p))) && r.samples.len() < 3 {
        r.sample(format!("round trip of {}", short(p)));
    }
    let want = p.normalized();
    let res = catch(|| -> Result<(), String> {
        let pk = build(p).map_err(|e| format!("builders refuse a legal packet: {e:?}"))?;
        let fl = pk.frame_len();
        let mut bytes: Vec<u8>;
        match bufkind {
            0 => {
                bytes = vec![];
                pk.to_bytes(&mut bytes);
            }
            1 => {
                let mut b = BytesMut::new();
                pk.to_bytes(&mut b);
                bytes = b.to_vec();
            }
            2 => {
                // a buffer with room for exactly the advertised length
                bytes = vec![0xaa; fl];
                let rest = {
                    let mut s = &mut bytes[..];
                    pk.to_bytes(&mut s);
                    s.remaining_mut()
                };
                if rest != 0 {
                    return Err(format!("frame_len {fl} but only {} bytes produced", fl - rest));
                }
            }
            _ => {
                // two separate segments
                let k = fl / 2;
                bytes = vec![0xaa; fl];
                let (a, b) = bytes.split_at_mut(k);
                let mut ch = a.chain_mut(b);
                pk.to_bytes(&mut ch);
                if ch.remaining_mut() != 0 {
                    return Err(format!("frame_len {fl} too large"));
                }
            }
        }
        if bytes.len() != fl {
            return Err(format!("frame_len {} but {} bytes produced", fl, bytes.len()));
        }
        let direct = extract(&pk);
        if direct != want {
            return Err(format!("built packet reports other values:{}", diff(&direct, &want)));
        }
        bytes.extend_from_slice(tail);
        let mut b = Count::new(Bytes::from(bytes.clone()));
        let back = Packet::from_bytes(&mut b).map_err(|e| format!("decoding the encoding fails: {e:?}"))?;
        if b.consumed() != fl {
            return Err(format!("decoder consumed {} bytes of a {} byte frame", b.consumed(), fl));
        }
        let got = extract(&back);
        if got != want {
            return Err(format!("round trip changed the packet:{}", diff(&got, &want)));
        }
        if back.frame_len() != fl {
            return Err(format!("frame_len of the decoded packet is {} instead of {}", back.frame_len(), fl));
        }
        // a clone is the same packet
        let again = encode_real(&back.clone());
        if again.len() != fl {
            return Err(format!("re-encoding the decoded packet gives {} bytes instead of {}", again.len(), fl));
        }
        let third = Packet::from_bytes(&mut &again[..]).map_err(|e| format!("decoding the re-encoding fails: {e:?}"))?;
        if extract(&third) != want {
            return Err(format!("second round trip changed the packet:{}", diff(&extract(&third), &want)));
        }
        Ok(())
    });
    match res {
        Ok(Ok(())) => {}
        Ok(Err(m)) => r.violate("round trip", format!("{m}\npacket: {}", short(p))),
        Err(m) => r.violate("round trip panics", format!("{m}\npacket: {}", short(p))),
    }
}
/// grow a packet so that its body (or its property block) has exactly `target` bytes
fn pad(p: &Pkt, target: usize, block: bool) -> Option<Pkt> {
    let size = |q: &Pkt| {
        if block {
            let mut n = 0;
            for (_, v) in &q.props {
                let mut o = vec![];
                put_val(&mut o, v);
                n += 1 + o.len();
            }
            n
        } else {
            body(q).len()
        }
    };
    let mut q = p.clone();
    if q.ty == PUBLISH && !block {
        loop {
            let s = size(&q);
            if s == target {
                return Some(q);
            }
            if s > target {
                return None;
            }
            q.payload.extend(std::iter::repeat(b'p').take(target - s));
        }
    }
    if mutate::props_at(p).is_none() {
        return None;
    }
    for _ in 0..200 {
        let s = size(&q);
        if s == target {
            return Some(q);
        }
        if s > target {
            return None;
        }
        let missing = target - s;
        let n = if missing > 65_540 { 60_000 } else { missing.saturating_sub(3) };
        // adding a property may also enlarge the property length field: back off by a byte or two
        for k in 0..4usize {
            let mut t = q.clone();
            t.props.push((0x26, V::S("u".repeat(n.saturating_sub(k)))));
            if size(&t) <= target {
                q = t;
                break;
            }
            if k == 3 {
                return None;
            }
        }
        if target - size(&q) < 3 && size(&q) != target {
            // fix the remainder through the last string
            let d = target - size(&q);
            if let Some((_, V::S(s))) = q.props.last_mut() {
                s.push_str(&"v".repeat(d));
            }
            if size(&q) != target {
                return None;
            }
        }
    }
    None
}
fn minimal(ty: u8) -> Pkt {
    let mut p = Pkt::new(ty);
    match ty {
        CONNECT => p.client_id = "c".into(),
        PUBLISH => p.topic = "t".into(),
        PUBACK | PUBREC | PUBREL | PUBCOMP => p.id = Some(7),
        SUBSCRIBE => {
            p.id = Some(7);
            p.subs = vec![("f".into(), 0)];
        }
        UNSUBSCRIBE => {
            p.id = Some(7);
            p.filters = vec!["f".into()];
        }
        SUBACK | UNSUBACK => {
            p.id = Some(7);
            p.codes = vec![0];
        }
        _ => {}
    }
    p
}
/// packets of a type with n elements in their list, n user properties, both
fn crowded(ty: u8, n: usize) -> Vec<Pkt> {
    let mut v = vec![];
    let mut p = minimal(ty);
    let codes = reason_codes(ty);
    match ty {
        SUBSCRIBE => p.subs = (0..n).map(|i| (format!("f{}", i % 50_021), (i % 3) as u8 | if i % 5 == 0 { 4 } else { 0 })).collect(),
        UNSUBSCRIBE => p.filters = (0..n).map(|i| format!("f{}", i % 50_021)).collect(),
        SUBACK | UNSUBACK => p.codes = (0..n).map(|i| codes[i * 7 % codes.len()]).collect(),
        _ => (),
    }
    let list = p != minimal(ty);
    if list {
        v.push(p.clone());
    }
    if PROPS.iter().any(|(id, _, owners)| *id == 0x26 && owners.contains(&ty)) {
        p.props.extend((0..n).map(|i| (0x26, V::S(format!("{}", i % 65_521)))));
        v.push(p);
    }
    if ty == CONNECT {
        let mut p = minimal(ty);
        p.flags = 4;
        p.will = Some(wire::Will { props: (0..n).map(|i| (0x26, V::S(format!("{}", i % 65_521)))).collect(), topic: "w".into(), payload: vec![1] });
        v.push(p);
    }
    v
}
const CROWDS: [usize; 5] = [4_095, 32_769, 65_535, 65_536, 131_073];
pub fn c02() -> i32 {
    let rep = par("C02", "packets of all 15 types built through the public builders: random field/property combinations, every property alone at boundary sizes, bodies and property blocks padded to exactly 125..131, 16381..16387 and 2097150..2097154 bytes, 65535-byte strings; encoded into 4 kinds of output buffer, decoded with bytes following. Non-trivial: distinct packet shapes (type, flags, reason, property sequence, length classes).", |e, r| {
        let mut job = 0usize;
        let mut mine = |e: &Env| {
            job += 1;
            job % e.threads == e.thread
        };
        // boundaries
        for ty in 1..=15u8 {
            for block in [false, true] {
                let mut targets: Vec<usize> = (120..=135).chain(16_376..=16_392).collect();
                if e.thorough || ty == PUBLISH || ty == CONNECT || ty == SUBSCRIBE {
                    targets.extend(2_097_148..=2_097_156);
                }
                for t in targets {
                    if !mine(e) {
                        continue;
                    }
                    match pad(&minimal(ty), t, block) {
                        Some(p) => {
                            r.count(if block { "property block boundary" } else { "body boundary" }, 1);
                            roundtrip(&p, r, &[0xe0, 0], t % 4);
                        }
                        None => r.count("boundary not constructible", 1),
                    }
                }
            }
            // each legal property on its own and doubled up where allowed, several values
            for (id, _, owners) in PROPS {
                let in_will = owners.contains(&WILL) && ty == CONNECT;
                if !owners.contains(&ty) && !in_will {
                    continue;
                }
                for _ in 0..12 {
                    if !mine(e) {
                        continue;
                    }
                    let v = gen::value(&mut e.rng, *id, cfg(65_535));
                    if owners.contains(&ty) {
                        let mut p = minimal(ty);
                        p.props.push((*id, v.clone()));
                        if *id == 0x26 {
                            p.props.push((*id, gen::value(&mut e.rng, *id, cfg(0))));
                        }
                        let tl = e.rng.bytes(3);
                        let k = e.rng.below(4);
                        roundtrip(&p, r, &tl, k);
                    }
                    if in_will {
                        let mut p = minimal(ty);
                        p.flags = 4;
                        p.will = Some(wire::Will { props: vec![(*id, v)], topic: "w".into(), payload: vec![1] });
                        roundtrip(&p, r, &[], 0);
                    }
                }
            }
        }
        // longest strings in every string position
        for n in [65_533usize, 65_534, 65_535] {
            if !mine(e) {
                continue;
            }
            let s = gen::gstr_len(&mut e.rng, n);
            let t: String = s.chars().map(|c| if c == '#' || c == '+' { 'h' } else { c }).collect();
            let mut p = minimal(CONNECT);
            p.flags = 4 | 0xc0;
            p.client_id = s.clone();
            p.username = Some(s.clone());
            p.password = Some(vec![0xab; n]);
            p.will = Some(wire::Will { props: vec![(0x09, V::B(vec![1; n]))], topic: t.clone(), payload: vec![2; n] });
            roundtrip(&p, r, &[], 1);
            let mut p = minimal(PUBLISH);
            p.topic = t.clone();
            p.props = vec![(0x03, V::S(s.clone())), (0x26, V::S(s.clone())), (0x26, V::S("b".into()))];
            roundtrip(&p, r, &[1], 2);
            let mut p = minimal(SUBSCRIBE);
            p.subs = vec![(t.clone(), 1), (t.clone(), 0x2c)];
            roundtrip(&p, r, &[1], 3);
            let mut p = minimal(UNSUBSCRIBE);
            p.filters = vec![t.clone(), "a/+/#".into()];
            roundtrip(&p, r, &[1], 0);
        }
        // longest lists
        for ty in 1..=15u8 {
            for n in CROWDS {
                if mine(e) {
                    for p in crowded(ty, n) {
                        r.count("crowded packets", 1);
                        roundtrip(&p, r, &[0xc0, 0], n % 4);
                    }
                }
            }
        }
        if e.thorough && e.thread == 0 {
            // the largest packets there are
            for n in [268_435_455usize, 268_435_454] {
                if let Some(p) = pad(&minimal(PUBLISH), n, false) {
                    roundtrip(&p, r, &[], 0);
                    r.count("maximum size packets", 1);
                }
            }
        }
        let n = e.share(if e.thorough { 20_000_000 } else { 2_000_000 });
        for i in 0..n {
            if i % 64 == 0 && e.over() {
                r.count("stopped by time budget", 1);
                break;
            }
            let ty = (i % 15 + 1) as u8;
            let c = if e.rng.chance(1, 60) { cfg(2_200_000) } else { cfg(0) };
            let p = gen::packet(&mut e.rng, ty, c);
            let k = e.rng.below(6);
            let tl = e.rng.bytes(k);
            let bk = e.rng.below(4);
            // every other packet is built with values that are replaced before it is sent
            let drafts = if i % 2 == 0 { None } else { Some(Rng::new(e.rng.next())) };
            r.count("built with replaced values", drafts.is_some() as u64);
            DRAFTS.with(|d| *d.borrow_mut() = drafts);
            roundtrip(&p, r, &tl, bk);
        }
        DRAFTS.with(|d| *d.borrow_mut() = None);
    });
    rep.finish()
}

// ---------------------------------------------------------------- C03
fn layout_out(p: &Pkt, r: &mut Report) {
    r.evaluations += 1;
    let res = catch(|| -> Result<(), String> {
        let pk = build(p).map_err(|e| format!("builders refuse a legal packet: {e:?}"))?;
        let b = encode_real(&pk);
        match decode(&b, DIALECT) {
            Dec::Ok(g) => {
                if g.consumed != b.len() {
                    return Err(format!("frame declares {} bytes but {} were produced: {}", g.consumed, b.len(), hexs(&b)));
                }
                let got = g.p.normalized();
                let want = p.normalized();
                if got != want {
                    return Err(format!("bytes carry other values:{}\nbytes {}", diff(&got, &want), hexs(&b)));
                }
            }
            x => return Err(format!("not a well-formed MQTT 5.0 frame: {x:?}\nbytes {}", hexs(&b))),
        }
        // without freedom in the order of properties the bytes are determined completely
        let mut ids: Vec<u8> = p.props.iter().map(|x| x.0).collect();
        ids.dedup();
        let mut wids: Vec<u8> = p.will.iter().flat_map(|w| w.props.iter().map(|x| x.0)).collect();
        wids.dedup();
        if ids.len() <= 1 && wids.len() <= 1 {
            let want = encode(p);
            if want != b {
                return Err(format!("bytes differ\n got {}\nwant {}", hexs(&b), hexs(&want)));
            }
        }
        Ok(())
    });
    match res {
        Ok(Ok(())) => {}
        Ok(Err(m)) => r.violate("encoding", format!("{m}\npacket: {}", short(p))),
        Err(m) => r.violate("encoding panics", format!("{m}\npacket: {}", short(p))),
    }
}
fn layout_in(p: &Pkt, r: &mut Report) {
    r.evaluations += 1;
    let b = encode(p);
    let res = catch(|| -> Result<(), String> {
        let back = Packet::from_bytes(&mut Bytes::from(b.clone())).map_err(|e| format!("well-formed frame refused: {e:?}"))?;
        let got = extract(&back);
        let want = p.normalized();
        if got != want {
            return Err(format!("decoded values differ:{}", diff(&got, &want)));
        }
        Ok(())
    });
    match res {
        Ok(Ok(())) => {}
        Ok(Err(m)) => r.violate("decoding", format!("{m}\npacket: {}\nframe {}", short(p), hexs(&b))),
        Err(m) => r.violate("decoding panics", format!("{m}\npacket: {}\nframe {}", short(p), hexs(&b))),
    }
}
/// the meaning of every subscription options byte, in both directions
fn options(r: &mut Report) {
    let qos = [QoS::QoS0, QoS::QoS1, QoS::QoS2];
    for (i, q) in qos.iter().enumerate() {
        if SubscriptionOptions::from(*q).bits() != i as u8 {
            r.violate("subscription options", format!("QoS {i} becomes {:#04x}", SubscriptionOptions::from(*q).bits()));
        }
    }
    let handling = || [RetainHandling::Send, RetainHandling::SendIfNotExisting, RetainHandling::DoNotSend];
    for (i, h) in handling().into_iter().enumerate() {
        let b = SubscriptionOptions::from(h).bits();
        if b != (i as u8) << 4 {
            r.violate("subscription options", format!("retain handling {i} becomes {b:#04x}"));
        }
    }
    for b in 0..=255u8 {
        r.evaluations += 1;
        let Some(o) = SubscriptionOptions::from_bits(b) else {
            if b < 64 {
                r.violate("subscription options", format!("{b:#04x} cannot be expressed"));
            }
            continue;
        };
        let q: Result<QoS, _> = o.try_into();
        let h: Result<RetainHandling, _> = o.try_into();
        let q = q.ok().and_then(|q| qos.iter().position(|x| *x == q)).unwrap_or(3);
        let h = h.ok().and_then(|h| handling().into_iter().position(|x| x == h)).unwrap_or(3);
        if b >= 64 || q as u8 != b & 3 || h as u8 != b >> 4 & 3 || o.contains(SubscriptionOptions::NO_LOCAL) != (b & 4 != 0) || o.contains(SubscriptionOptions::RETAIN_AS_PUBLISHED) != (b & 8 != 0) {
            r.violate("subscription options", format!("{b:#04x} is read as QoS {q}, retain handling {h}"));
        }
    }
}
pub fn c03() -> i32 {
    let mut rep = par("C03", "builder -> bytes judged by the independent reference decoder (byte-exact where property order is determined), and reference encoder (random property order) -> accessors; enumerated: all reason codes of all packets, all PUBLISH flag and 36 subscription option combinations, all legal connect flag bytes, every property alone with boundary values; random packets on top. Non-trivial: distinct packet shapes.", |e, r| {
        let mut job = 0usize;
        let mut both = |p: &Pkt, r: &mut Report, e: &Env| {
            job += 1;
            if job % e.threads != e.thread {
                return;
            }
            if r.distinct.insert(key(&gen::shape(p))) && r.samples.len() < 3 {
                r.sample(format!("{} <-> {}", short(p), hexs(&encode(p))));
            }
            layout_out(p, r);
            layout_in(p, r);
        };
        if e.thread == 0 {
            options(r);
        }
        let mut det = rng::Rng::new(refmqtt::report::seed() ^ 77);
        for ty in 1..=15u8 {
            let m = minimal(ty);
            both(&m, r, e);
            for n in CROWDS {
                for p in crowded(ty, n) {
                    both(&p, r, e);
                }
            }
            for c in reason_codes(ty) {
                let mut p = m.clone();
                if ty == SUBACK || ty == UNSUBACK {
                    p.codes = vec![*c];
                    both(&p, r, e);
                    p.codes = reason_codes(ty).to_vec();
                    both(&p, r, e);
                } else {
                    p.reason = *c;
                    both(&p, r, e);
                    if ty == CONNACK && *c == 0 {
                        p.flags = 1;
                        both(&p, r, e);
                    }
                }
            }
            for (id, k, owners) in PROPS {
                if owners.contains(&ty) || (ty == CONNECT && owners.contains(&WILL)) {
                    let vals: Vec<V> = match k {
                        K::U8 if BOOL_PROPS.contains(id) => vec![V::U8(0), V::U8(1)],
                        K::U8 => vec![V::U8(0), V::U8(200)],
                        K::U16 => vec![V::U16(1), V::U16(0x0102), V::U16(65_535)],
                        K::U32 => vec![V::U32(1), V::U32(0x0102_0304), V::U32(u32::MAX)],
                        K::VI => [1u32, 127, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455].iter().map(|x| V::VI(*x)).collect(),
                        K::S => vec![V::S("".into()), V::S("Déjà vu".into()), V::S("\u{feff}x😀".into())],
                        K::B => vec![V::B(vec![]), V::B(vec![0, 1, 2, 255])],
                        K::P => vec![gen::value(&mut det, 0x26, cfg(0)), gen::value(&mut det, 0x26, cfg(0))],
                    };
                    for v in vals {
                        if owners.contains(&ty) {
                            let mut p = m.clone();
                            p.props = vec![(*id, v.clone())];
                            both(&p, r, e);
                        }
                        if ty == CONNECT && owners.contains(&WILL) {
                            let mut p = m.clone();
                            p.flags = 4;
                            p.will = Some(wire::Will { props: vec![(*id, v.clone())], topic: "w/t".into(), payload: vec![9, 0, 9] });
                            both(&p, r, e);
                        }
                    }
                }
            }
        }
        for f in 0..16u8 {
            if f & 6 == 6 || (f & 8 != 0 && f & 6 == 0) {
                continue;
            }
            for id in [1u16, 0x1234, 0xffff] {
                let mut p = minimal(PUBLISH);
                p.flags = f;
                p.payload = b"data".to_vec();
                if f & 6 != 0 {
                    p.id = Some(id);
                }
                both(&p, r, e);
            }
        }
        for o in 0..64u8 {
            if o & 3 == 3 || o >> 4 == 3 {
                continue;
            }
            let mut p = minimal(SUBSCRIBE);
            p.subs = vec![("a/+/#".into(), o), ("b".into(), 0)];
            both(&p, r, e);
        }
        for f in (0..=255u8).step_by(2) {
            let (w, wq, wr) = (f & 4 != 0, (f >> 3) & 3, f & 0x20 != 0);
            if wq == 3 || (!w && (wq > 0 || wr)) {
                continue;
            }
            let mut p = minimal(CONNECT);
            p.flags = f;
            p.keep_alive = 0x0a0b;
            if w {
                p.will = Some(wire::Will { props: vec![], topic: "w".into(), payload: b"bye".to_vec() });
            }
            if f & 0x80 != 0 {
                p.username = Some("user".into());
            }
            if f & 0x40 != 0 {
                p.password = Some(b"pw".to_vec());
            }
            both(&p, r, e);
        }
        drop(both);
        let n = e.share(if e.thorough { 25_000_000 } else { 4_000_000 });
        for i in 0..n {
            if i % 64 == 0 && e.over() {
                r.count("stopped by time budget", 1);
                break;
            }
            let ty = (i % 15 + 1) as u8;
            let c = if e.rng.chance(1, 80) { cfg(70_000) } else { cfg(0) };
            let p = gen::packet(&mut e.rng, ty, c);
            r.distinct.insert(key(&gen::shape(&p)));
            if i % 2 == 0 {
                layout_out(&p, r);
            } else {
                layout_in(&p, r);
            }
        }
    });
    // known finding K2: user properties are single strings here, pairs in the specification
    if !DIALECT.user_pair {
        let mut p = minimal(PUBLISH);
        p.props = vec![(0x26, V::P("key".into(), "value".into()))];
        let ours = build(&p).map(|k| encode_real(&k) == encode(&p)).unwrap_or(false);
        let theirs = matches!(catch(|| Packet::from_bytes(&mut Bytes::from(encode(&p)))), Ok(Ok(ref k)) if extract(k) == p.normalized());
        if !ours || !theirs {
            rep.known_finding("K2 User Property is encoded and decoded as one string instead of a string pair");
        }
    }
    rep.finish()
}

// ---------------------------------------------------------------- C04
fn verdict(b: &[u8], what: &str, r: &mut Report) {
    r.evaluations += 1;
    let spec = decode(b, SPEC);
    let dia = decode(b, DIALECT);
    let real = match catch(|| Packet::from_bytes(&mut &b[..])) {
        Ok(x) => x,
        Err(m) => {
            r.violate("no verdict", format!("panic: {m}\nmutation {what}, frame {}", hexs(b)));
            return;
        }
    };
    let soft = |d: &Dec| matches!(d, Dec::Ok(g) if g.soft.is_some());
    let ok = |d: &Dec| matches!(d, Dec::Ok(_));
    if spec == Dec::NeedMore {
        // not a complete frame: must not be accepted, nothing else is claimed here
        if real.is_ok() {
            r.violate("incomplete frame accepted", format!("mutation {what}: {}", hexs(b)));
        }
        r.count("incomplete", 1);
        return;
    }
    let fp = match &spec {
        Dec::Bad(m, _) => m.to_string(),
        Dec::Ok(g) => g.soft.unwrap_or("well-formed").to_string(),
        Dec::NeedMore => String::new(),
    };
    if r.distinct.insert(key(&format!("{what}|{fp}|{}", b[0] >> 4))) && r.samples.len() < 5 {
        r.sample(format!("{what}: {} -> reference: {fp}; code: {:?}", hexs(b), real.as_ref().err()));
    }
    if soft(&spec) || soft(&dia) {
        r.count("no verdict demanded", 1);
        return;
    }
    r.count(if ok(&spec) { "well-formed" } else { "malformed" }, 1);
    match (&real, ok(&spec), ok(&dia)) {
        (Ok(_), true, _) | (Err(_), false, _) => {}
        (Ok(_), false, true) => r.known_finding("K2 a User Property holding one string instead of a string pair is accepted"),
        (Err(_), true, false) => {
            // which known restriction explains it?
            let k = |m: Mode| ok(&decode(b, m));
            if k(Mode { short: true, ..DIALECT }) {
                r.known_finding("K1 short forms (omitted reason code or property length) of PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT and AUTH are rejected");
            } else if k(Mode { multi_sid: true, ..DIALECT }) {
                r.known_finding("K3 a PUBLISH with several Subscription Identifiers is rejected");
            } else {
                r.known_finding("K2 a User Property holding a string pair is rejected");
            }
        }
        (Ok(_), false, false) => r.violate("malformed frame accepted", format!("{fp}\nmutation {what}: {}", hexs(b))),
        (Err(x), true, true) => r.violate("well-formed frame rejected", format!("{x:?}\nmutation {what}: {}", hexs(b))),
    }
}
pub fn c04() -> i32 {
    let rep = par("C04", "every frame with a body of at most 2 bytes (exhaustive), every single-byte substitution in 64 base frames of all types (exhaustive), structural mutants (26 kinds) of random packets, valid packets; verdict compared with the reference decoder. Non-trivial: distinct (mutation, reference verdict or reason, packet type) triples.", |e, r| {
        for a in 0..=255u8 {
            if a as usize % e.threads != e.thread {
                continue;
            }
            verdict(&[a, 0], "tiny", r);
            for b in 0..=255u8 {
                verdict(&[a, 1, b], "tiny", r);
                for c in 0..=255u8 {
                    verdict(&[a, 2, b, c], "tiny", r);
                    if e.thorough && a & 0xf == if a >> 4 == PUBLISH { a & 0xf } else { fixed_flags(a >> 4) } {
                        for d in 0..=255u8 {
                            verdict(&[a, 3, b, c, d], "tiny", r);
                        }
                    }
                }
            }
        }
        r.count("exhaustive tiny frames", r.evaluations);
        // single byte substitutions
        let mut det = rng::Rng::new(refmqtt::report::seed() ^ 4);
        let rounds = if e.thorough { 24 } else { 4 };
        let mut job = 0;
        for _ in 0..rounds {
            for ty in 1..=15u8 {
                let p = loop {
                    let p = gen::packet(&mut det, ty, cfg(0));
                    if body(&p).len() <= 110 {
                        break p;
                    }
                };
                job += 1;
                if job % e.threads != e.thread {
                    continue;
                }
                let b = encode(&p);
                for i in 0..b.len() {
                    let mut q = b.clone();
                    for v in 0..=255u8 {
                        q[i] = v;
                        if matches!(head(&q), Head::Ok { at, len, .. } if at + len <= q.len()) {
                            verdict(&q, "substitution", r);
                        }
                    }
                }
                r.count("base frames with all substitutions", 1);
            }
        }
        let n = e.share(if e.thorough { 60_000_000 } else { 4_000_000 });
        for i in 0..n {
            if i % 64 == 0 && e.over() {
                r.count("stopped by time budget", 1);
                break;
            }
            let ty = (i % 15 + 1) as u8;
            let user_pair = e.rng.chance(1, 10);
            let p = gen::packet(&mut e.rng, ty, gen::Cfg { user_pair, big: 0 });
            if i % 11 == 0 {
                verdict(&encode(&p), "none", r);
            } else {
                let (m, what) = mutate::mutant(&mut e.rng, &p);
                verdict(&m, what, r);
            }
        }
    });
    rep.finish()
}

// ---------------------------------------------------------------- C05
/// Frames whose length is at the edges of the one to four byte encodings: prefixes of them, and the
/// frames themselves in front of others. Only the beginning of the longest ones is made.
fn length_edges(e: &mut Env, r: &mut Report) {
    let edges = [126usize, 127, 128, 129, 255, 256, 16_382, 16_383, 16_384, 16_385, 32_768, 65_535, 65_536, 2_097_150, 2_097_151, 2_097_152, 2_097_153, 4_194_304, 268_435_454, 268_435_455];
    let len = *e.rng.pick(&edges);
    let mut p = gen::packet(&mut e.rng, PUBLISH, cfg(0));
    p.payload.clear();
    let head0 = match encode(&p) {
        b => b.len() - head_len(&b),
    };
    if head0 > len {
        return;
    }
    // the parts in front of the payload, the length set for the whole
    let whole = len <= 4_194_304;
    let some = e.rng.below(200);
    p.payload = e.rng.bytes(if whole { len - head0 } else { some });
    let mut b = encode(&p);
    if !whole {
        let first = b[0];
        b.drain(..head_len(&b));
        let mut h = vec![first];
        put_varint(&mut h, len as u32);
        h.extend_from_slice(&b);
        b = h;
    }
    let n = b.len();
    let cuts: Vec<usize> = (0..12.min(n)).chain((0..6).map(|_| e.rng.below(n))).chain(n.saturating_sub(3)..n).chain(if whole { None } else { Some(n) }).collect();
    for k in cuts {
        r.evaluations += 1;
        r.count("prefixes of frames at the edges of the length encodings", 1);
        r.distinct.insert(key(&format!("e{len}{}", k.min(12))));
        let x = match e.rng.below(3) {
            0 => dec(&b[..k]),
            1 => dec(Bytes::copy_from_slice(&b[..k])),
            _ => {
                let cs = (0..4).map(|_| e.rng.below(k.min(12) + 1)).collect();
                dec(Seg::new(&b[..k], cs))
            }
        };
        match x {
            Ok((Err(ref er), _)) if is_need_more(er) => {}
            Ok((Ok(_), u)) => r.violate("prefix accepted", format!("first {k} bytes of a frame of length {len} accepted (consumed {u}): {}", hexs(&b[..k]))),
            Ok((Err(er), _)) => r.violate("prefix of a well-formed frame not reported as incomplete", format!("first {k} bytes of a frame of length {len}: {er:?}; {}", hexs(&b[..k]))),
            Err(m) => r.violate("prefix panics", format!("{m}; first {k} bytes of a frame of length {len}: {}", hexs(&b[..k]))),
        }
    }
    if whole {
        let next = encode(&gen::packet(&mut e.rng, SUBSCRIBE, cfg(0)));
        b.extend_from_slice(&next);
        r.evaluations += 1;
        let x = if e.rng.chance(1, 2) { dec(&b[..]) } else { dec(Bytes::from(b.clone())) };
        match x {
            Ok((Ok(_), u)) if u == n => (),
            Ok((Ok(_), u)) => r.violate("accepted frame consumed wrongly", format!("consumed {u}, frame ends at {n}: {}", hexs(&b))),
            Ok((Err(er), _)) => r.violate("complete well-formed frame of that length not accepted", format!("length {len}: {er:?}: {}", hexs(&b))),
            Err(m) => r.violate("decoding panics", format!("{m}; length {len}: {}", hexs(&b))),
        }
    }
}
fn head_len(b: &[u8]) -> usize {
    1 + b[1..].iter().position(|x| x & 0x80 == 0).unwrap() + 1
}
pub fn c05() -> i32 {
    let rep = par("C05", "streams of 1-8 well-formed frames (all types, occasionally large) decoded one after the other from shared buffers of 4 kinds; every proper prefix of frames up to 400 bytes and sampled prefixes of larger ones; complete but internally inconsistent frames (structural mutants, length-preserving edits) followed by further bytes. Non-trivial: distinct (part, type, frame length class, outcome).", |e, r| {
        let n = e.share(if e.thorough { 6_000_000 } else { 800_000 });
        for i in 0..n {
            if i % 16 == 0 && e.over() {
                r.count("stopped by time budget", 1);
                break;
            }
            if i % 4096 == 5 {
                length_edges(e, r);
            }
            match i % 3 {
                0 => {
                    // a stream
                    let k = e.rng.range(1, 8);
                    let mut frames = vec![];
                    let mut all = vec![];
                    for _ in 0..k {
                        let ty = e.rng.range(1, 15) as u8;
                        let c = if e.rng.chance(1, 200) { cfg(70_000) } else { cfg(0) };
                        let p = gen::packet(&mut e.rng, ty, c);
                        let b = encode(&p);
                        all.extend_from_slice(&b);
                        frames.push((p.normalized(), b.len()));
                    }
                    let cut = e.rng.below(4);
                    all.extend(e.rng.bytes(cut));
                    let kind = e.rng.below(4);
                    r.evaluations += 1;
                    r.distinct.insert(key(&format!("s{k}{}{kind}", frames[0].0.ty)));
                    let res = match kind {
                        0 => stream(Bytes::from(all.clone()), &frames),
                        1 => stream(BytesMut::from(&all[..]), &frames),
                        2 => stream(all.iter().copied().collect::<VecDeque<u8>>(), &frames),
                        _ => stream(&all[..], &frames),
                    };
                    r.count("frames split off streams", frames.len() as u64);
                    if r.samples.is_empty() {
                        r.sample(format!("stream of {k} frames: {}", hexs(&all)));
                    }
                    if let Err(m) = res {
                        r.violate("stream not split at the frame boundary", format!("{m}\nstream {}", hexs(&all)));
                    }
                }
                1 => {
                    // prefixes
                    let ty = e.rng.range(1, 15) as u8;
                    let c = if e.rng.chance(1, 100) { cfg(70_000) } else { cfg(0) };
                    let b = encode(&gen::packet(&mut e.rng, ty, c));
                    let cuts: Vec<usize> = if b.len() <= 400 { (0..b.len()).collect() } else { (0..60).map(|_| e.rng.below(b.len())).chain(0..8).chain(b.len() - 4..b.len()).collect() };
                    for k in cuts {
                        r.evaluations += 1;
                        r.count("prefixes", 1);
                        r.distinct.insert(key(&format!("p{ty}{}", k.min(120))));
                        let x = match e.rng.below(3) {
                            0 => dec(&b[..k]),
                            1 => dec(Bytes::copy_from_slice(&b[..k])),
                            _ => {
                                let cs = (0..4).map(|_| e.rng.below(k + 1)).collect();
                                dec(Seg::new(&b[..k], cs))
                            }
                        };
                        match x {
                            Ok((Err(ref er), _)) if is_need_more(er) => {}
                            Ok((Ok(_), u)) => r.violate("prefix accepted", format!("first {k} of {} bytes accepted (consumed {u}): {}", b.len(), hexs(&b))),
                            Ok((Err(er), _)) => r.violate("prefix of a well-formed frame not reported as incomplete", format!("first {k} of {} bytes: {er:?}; frame {}", b.len(), hexs(&b))),
                            Err(m) => r.violate("prefix panics", format!("{m}; first {k} of {}", hexs(&b))),
                        }
                    }
                }
                _ => {
                    // complete frames that may be inconsistent inside
                    let ty = e.rng.range(1, 15) as u8;
                    let p = gen::packet(&mut e.rng, ty, cfg(0));
                    for _ in 0..12 {
                        let (mut m, what) = mutate::mutant(&mut e.rng, &p);
                        if e.rng.chance(1, 2) {
                            let x = encode(&gen::packet(&mut e.rng, PUBLISH, cfg(0)));
                            m.extend(x);
                        }
                        let end = match head(&m) {
                            Head::Ok { at, len, .. } if at + len <= m.len() => at + len,
                            _ => continue,
                        };
                        r.evaluations += 1;
                        r.count("complete frames", 1);
                        let x = match e.rng.below(3) {
                            0 => dec(&m[..]),
                            1 => dec(Bytes::copy_from_slice(&m)),
                            _ => dec(Seg::new(&m, (0..4).map(|_| e.rng.below(m.len() + 1)).collect())),
                        };
                        let o = match x {
                            Ok((Err(ref er), _)) if is_need_more(er) => {
                                r.violate("complete frame reported as incomplete", format!("{er:?}\nmutation {what}, frame ends at {end} of {} bytes: {}", m.len(), hexs(&m)));
                                0
                            }
                            Ok((Err(_), u)) => {
                                if u > end {
                                    r.violate("consumed beyond the frame", format!("{u} > {end}: {}", hexs(&m)));
                                }
                                1
                            }
                            Ok((Ok(_), u)) => {
                                if u != end {
                                    r.violate("accepted frame consumed wrongly", format!("consumed {u}, frame ends at {end}; mutation {what}: {}", hexs(&m)));
                                }
                                2
                            }
                            Err(m2) => {
                                r.violate("decoding panics", format!("{m2}: {}", hexs(&m)));
                                3
                            }
                        };
                        r.distinct.insert(key(&format!("m{ty}{what}{o}")));
                    }
                }
            }
        }
    });
    rep.finish()
}
fn stream<B: Buf>(mut b: B, frames: &[(Pkt, usize)]) -> Result<(), String> {
    for (i, (p, len)) in frames.iter().enumerate() {
        let before = b.remaining();
        let x = catch(|| Packet::from_bytes(&mut b))?.map_err(|e| format!("frame {i} (type {}) refused: {e:?}", p.ty))?;
        let used = before - b.remaining();
        if used != *len {
            return Err(format!("frame {i} (type {}) is {len} bytes long, {used} were consumed", p.ty));
        }
        let got = catch(|| extract(&x))?;
        if got != *p {
            return Err(format!("frame {i}: {}", diff(&got, p)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
fn topic_case(s: &str, r: &mut Report) {
    r.evaluations += 1;
    let f = matcher::valid_filter(s);
    let t = matcher::valid_topic_name(s);
    let a: std::sync::Arc<str> = std::sync::Arc::from(s);
    let res = catch(|| {
        let mut bad = vec![];
        let mut sub = Subscribe::new(1);
        let g = sub.add_topic(a.clone(), SubscriptionOptions::NO_FLAGS & SubscriptionOptions::empty()).is_ok();
        if g != f {
            bad.push(format!("Subscribe::add_topic accepts: {g}, rule says {f}"));
        }
        let mut un = Unsubscribe::new(1);
        let g = un.add_topic(a.clone()).is_ok();
        if g != f {
            bad.push(format!("Unsubscribe::add_topic accepts: {g}, rule says {f}"));
        }
        let g = MqttTopic::new(a.clone()).is_ok();
        if g != f {
            bad.push(format!("MqttTopic::new accepts: {g}, rule says {f}"));
        }
        if let Ok(m) = MqttTopic::new(a.clone()) {
            if m.is_wildcard() == t {
                bad.push(format!("is_wildcard is {}", m.is_wildcard()));
            }
            if m.is_system() != s.starts_with('$') {
                bad.push(format!("is_system is {}", m.is_system()));
            }
            if m.inner().as_ref() != s {
                bad.push("MqttTopic changed the text".into());
            }
        }
        let g = Publish::new(a.clone(), Bytes::new()).is_ok();
        if g != t {
            bad.push(format!("Publish::new accepts: {g}, rule says {t}"));
        }
        let g = apiformes_packet::prelude::Will::new(a.clone(), &b"p"[..]).is_ok();
        if g != t {
            bad.push(format!("Will::new accepts: {g}, rule says {t}"));
        }
        let mut w = apiformes_packet::prelude::Will::new(arc("x"), &b"p"[..]).unwrap();
        let g = w.set_topic(a.clone()).is_ok();
        if g != t {
            bad.push(format!("Will::set_topic accepts: {g}, rule says {t}"));
        }
        // the same through the decoder
        let dec_ok = |p: &Pkt| Packet::from_bytes(&mut Bytes::from(encode(p))).is_ok();
        let mut p = minimal(SUBSCRIBE);
        p.subs = vec![("x".into(), 0), (s.into(), 0)];
        let g = dec_ok(&p);
        if g != f {
            bad.push(format!("decoding SUBSCRIBE accepts: {g}, rule says {f}"));
        }
        let mut p = minimal(UNSUBSCRIBE);
        p.filters = vec![s.into()];
        let g = dec_ok(&p);
        if g != f {
            bad.push(format!("decoding UNSUBSCRIBE accepts: {g}, rule says {f}"));
        }
        let mut p = minimal(CONNECT);
        p.flags = 4;
        p.will = Some(wire::Will { props: vec![], topic: s.into(), payload: vec![] });
        let g = dec_ok(&p);
        if g != t {
            bad.push(format!("decoding a will accepts: {g}, rule says {t}"));
        }
        let mut p = minimal(PUBLISH);
        p.topic = s.into();
        p.payload = vec![1];
        let g = dec_ok(&p);
        if g != t {
            bad.push(format!("decoding PUBLISH accepts: {g}, rule says {t}"));
        }
        bad
    });
    match res {
        Ok(b) if b.is_empty() => {}
        Ok(b) => r.violate(format!("topic rule for {s:?}"), b.join("\n")),
        Err(m) => r.violate(format!("topic rule for {s:?}"), format!("panic {m}")),
    }
    r.count(if t { "topic names" } else if f { "wildcard filters" } else { "ill-formed" }, 1);
    if s.contains('+') || s.contains('#') {
        r.distinct.insert(key(s));
    }
    if r.evaluations % 50_021 == 7 {
        r.sample(format!("{s:?}: filter {f}, topic name {t}"));
    }
}
pub fn c07() -> i32 {
    let rep = par("C07", "all strings of length 1..7 over {a,/,+,#,$} (length 8 and a 2-byte character added in the thorough run), every character of the basic plane (thorough: all of Unicode) next to wildcards and separators, random longer filters with wildcards inserted anywhere, random unicode; each through 4 builder/type entry points and 3 decoders, against the rule evaluated level by level. Non-trivial: distinct strings containing a wildcard character.", |e, r| {
        let alpha: Vec<&str> = if e.thorough { vec!["a", "/", "+", "#", "$", "é"] } else { vec!["a", "/", "+", "#", "$"] };
        let max = if e.thorough { 8 } else { 7 };
        let mut n = 0usize;
        for len in 1..=max {
            let total = alpha.len().pow(len as u32);
            for k in 0..total {
                n += 1;
                if n % e.threads != e.thread {
                    continue;
                }
                let mut s = String::new();
                let mut x = k;
                for _ in 0..len {
                    s.push_str(alpha[x % alpha.len()]);
                    x /= alpha.len();
                }
                topic_case(&s, r);
            }
        }
        r.count("exhaustive strings", r.evaluations);
        // every character beside the ones with a meaning
        let top = if e.thorough { 0x11_0000u32 } else { 0x1_0000 };
        for u in (0x20..top).filter(|u| *u as usize % e.threads == e.thread) {
            let Some(c) = char::from_u32(u) else { continue };
            if c.is_control() || u & 0xfffe == 0xfffe || (0xfdd0..0xfdf0).contains(&u) {
                continue;
            }
            let all = [format!("{c}"), format!("{c}#"), format!("+{c}"), format!("a/{c}"), format!("#{c}"), format!("{c}+"), format!("{c}/#"), format!("+/{c}"), format!("{c}/+/a")];
            for s in &all[..if u < 0x3000 { 9 } else { 4 }] {
                topic_case(s, r);
            }
        }
        let m = e.share(if e.thorough { 3_000_000 } else { 1_000_000 });
        for i in 0..m {
            if i % 64 == 0 && e.over() {
                break;
            }
            let mut s = gen::filter(&mut e.rng, cfg(if i % 50 == 0 { 4000 } else { 0 }));
            for _ in 0..e.rng.below(3) {
                let at = loop {
                    let k = e.rng.below(s.len() + 1);
                    if s.is_char_boundary(k) {
                        break k;
                    }
                };
                let ins = *e.rng.pick(&["+", "#", "/", "/+", "/#", "é", "#/", "+/"]);
                s.insert_str(at, ins);
            }
            if s.len() <= 65_535 {
                topic_case(&s, r);
            }
        }
    });
    rep.finish()
}

// ---------------------------------------------------------------- C08
fn class(x: &Result<Packet, Perr>) -> &'static str {
    match x {
        Ok(_) => "accepted",
        Err(e) if is_need_more(e) => "incomplete",
        Err(_) => "rejected",
    }
}
pub fn c08() -> i32 {
    let rep = par("C08", "valid frames of all types (strings up to 65535 bytes), structural mutants and truncated frames, each decoded contiguously and as: chained slices cut at 1-3 random or structural points, segments with many random cuts, one-byte segments, wrapped VecDeque, Bytes chain with Take; verdict class, contents and consumed bytes compared. Non-trivial: distinct (type, verdict, layout, cut position class).", |e, r| {
        let n = e.share(if e.thorough { 10_000_000 } else { 2_000_000 });
        for i in 0..n {
            if i % 32 == 0 && e.over() {
                r.count("stopped by time budget", 1);
                break;
            }
            let ty = (i % 15 + 1) as u8;
            let c = if e.rng.chance(1, 200) { cfg(66_000) } else { cfg(0) };
            let p = gen::packet(&mut e.rng, ty, c);
            let mut b = match e.rng.below(5) {
                0 => mutate::mutant(&mut e.rng, &p).0,
                1 => {
                    let b = encode(&p);
                    let k = e.rng.below(b.len() + 1);
                    b[..k].to_vec()
                }
                _ => encode(&p),
            };
            let tl = e.rng.below(5);
            b.extend(e.rng.bytes(tl));
            let (base, used) = match dec(Bytes::from(b.clone())) {
                Ok(x) => x,
                Err(m) => {
                    r.violate("panic on contiguous buffer", format!("{m}: {}", hexs(&b)));
                    continue;
                }
            };
            let want = base.as_ref().ok().map(|p| catch(|| extract(p)));
            for _ in 0..2 {
                let lay = e.rng.below(7);
                let cut = e.rng.below(b.len() + 1);
                let cut2 = cut + e.rng.below(b.len() - cut + 1);
                let x = match lay {
                    0 => dec(Buf::chain(&b[..cut], &b[cut..])),
                    1 => dec(Buf::chain(Buf::chain(&b[..cut], &b[cut..cut2]), Bytes::copy_from_slice(&b[cut2..]))),
                    2 => {
                        let k = e.rng.range(1, 30);
                        dec(Seg::new(&b, (0..k).map(|_| e.rng.below(b.len() + 1)).collect()))
                    }
                    3 => dec(Seg::new(&b, (1..b.len()).collect())),
                    4 => {
                        let mut v: VecDeque<u8> = VecDeque::with_capacity(b.len() + 1);
                        let k = e.rng.below(v.capacity() + 1);
                        v.extend(std::iter::repeat(0).take(k));
                        v.drain(..);
                        v.extend(b.iter());
                        dec(v)
                    }
                    5 => dec(Buf::take(Buf::chain(Bytes::copy_from_slice(&b[..cut]), Bytes::copy_from_slice(&b[cut..])), b.len())),
                    _ => {
                        let mut v = BytesMut::from(&b[..cut]);
                        v.extend_from_slice(&b[cut..]);
                        dec(v)
                    }
                };
                r.evaluations += 1;
                let names = ["2-chain", "3-chain", "segments", "one-byte segments", "VecDeque", "Take of chain", "BytesMut"];
                match x {
                    Err(m) => r.violate("panic depends on the buffer", format!("{m} ({} cut at {cut},{cut2}): {}", names[lay], hexs(&b))),
                    Ok((res, u)) => {
                        if class(&res) != class(&base) {
                            r.violate("verdict depends on segmentation", format!("contiguous: {} {:?}, {} cut at {cut},{cut2}: {} {:?}\n{}", class(&base), base.as_ref().err(), names[lay], class(&res), res.as_ref().err(), hexs(&b)));
                        } else if let (Ok(q), Some(Ok(w))) = (&res, &want) {
                            match catch(|| extract(q)) {
                                Ok(got) if got == *w => {}
                                Ok(got) => r.violate("contents depend on segmentation", format!("{} cut at {cut},{cut2}:{}\n{}", names[lay], diff(&got, w), hexs(&b))),
                                Err(m) => r.violate("contents depend on segmentation", format!("panic {m}: {}", hexs(&b))),
                            }
                            if u != used {
                                r.violate("consumed bytes depend on segmentation", format!("{used} contiguous, {u} as {}: {}", names[lay], hexs(&b)));
                            }
                        }
                        r.count(class(&res), 1);
                        if r.distinct.insert(key(&format!("{ty}{}{lay}{}", class(&res), cut.min(64)))) && r.samples.len() < 4 {
                            r.sample(format!("{} cut at {cut},{cut2}: {} -> {}", names[lay], hexs(&b), class(&res)));
                        }
                    }
                }
            }
        }
    });
    rep.finish()
}
