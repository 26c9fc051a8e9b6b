//! Structure-aware and raw mutations of encoded frames.
use crate::gen;
use crate::rng::Rng;
use crate::wire::*;

fn raw_props(items: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut b = vec![];
    for (id, v) in items {
        put_varint(&mut b, *id);
        b.extend_from_slice(v);
    }
    let mut o = vec![];
    put_varint(&mut o, b.len() as u32);
    o.extend_from_slice(&b);
    o
}
fn overlong(x: u32, extra: usize) -> Vec<u8> {
    let mut o = vec![];
    put_varint(&mut o, x);
    let n = o.len();
    o[n - 1] |= 0x80;
    for _ in 1..extra {
        o.push(0x80);
    }
    o.push(0);
    o
}
/// offset of the property length inside the body, for packet types that have one
pub fn props_at(p: &Pkt) -> Option<usize> {
    Some(match p.ty {
        CONNECT => 10,
        CONNACK => 2,
        PUBLISH => 2 + p.topic.len() + if p.id.is_some() { 2 } else { 0 },
        PUBACK | PUBREC | PUBREL | PUBCOMP => 3,
        SUBSCRIBE | UNSUBSCRIBE | SUBACK | UNSUBACK => 2,
        DISCONNECT | AUTH => 1,
        _ => return None,
    })
}
fn props_len(p: &Pkt) -> usize {
    let mut o = vec![];
    put_props(&mut o, &p.props);
    o.len()
}
const BAD_STRS: &[&[u8]] = &[
    b"a\x00b", b"\x00", b"\x01", b"\x1f", b"x\x7f", b"\xc2\x80", b"\xc2\x9f", b"\xed\xa0\x80", b"\xff", b"\xc0\xaf",
    b"\xf8\x88\x80\x80\x80", b"a\xe4\xb8", b"\xf4\x90\x80\x80", b"\xe0\x80\xaf", b"\xed\xbf\xbf",
];
const BAD_FILTERS: &[&str] = &[
    "#/", "a/#/b", "a#", "#a", "a/b#", "+a", "a+", "a/+b/c", "a/b+/c", "##", "++", "+#", "#+", "a/#b", "+/+a", "/#/", "a+/b", "#/#", "b/+#", "+/#/",
];
const BAD_TOPICS: &[&str] = &["#", "+", "a/#", "a/+", "+/b", "a/+/b", "a#", "b+c", "sport/tennis#", "/+"];

/// A frame derived from `p` by one (or several) mutations, with the name of the mutation.
/// The result may still be well-formed: verdicts come from the reference decoder.
pub fn mutant(r: &mut Rng, p: &Pkt) -> (Vec<u8>, &'static str) {
    let first = (p.ty << 4) | if p.ty == PUBLISH { p.flags } else { fixed_flags(p.ty) };
    let b = body(p);
    let pair = r.chance(1, 8);
    for _ in 0..50 {
        match r.below(26) {
            0 => return (frame(r.u8(), &b), "first byte"),
            1 => return (frame(first ^ (1 << r.below(4)), &b), "header flag flipped"),
            2 => {
                // over-long remaining length
                let extra = r.range(1, 3);
                let mut o = vec![first];
                o.extend(overlong(b.len() as u32, extra));
                o.extend_from_slice(&b);
                return (o, "over-long remaining length");
            }
            3 => {
                let mut bb = b.clone();
                let n = r.range(1, 5);
                bb.extend(r.bytes(n));
                return (frame(first, &bb), "trailing bytes");
            }
            4 => {
                if b.is_empty() {
                    continue;
                }
                let cut = if r.chance(1, 2) { b.len() - r.range(1, 4.min(b.len())) } else { r.below(b.len()) };
                return (frame(first, &b[..cut]), "body cut, length adjusted");
            }
            5 | 6 => {
                // insert / replace a property
                let at = match props_at(p) {
                    Some(a) => a,
                    None => continue,
                };
                let mut items: Vec<(u32, Vec<u8>)> = p
                    .props
                    .iter()
                    .map(|(i, v)| {
                        let mut o = vec![];
                        put_val(&mut o, v);
                        (*i as u32, o)
                    })
                    .collect();
                let c = gen::Cfg { user_pair: pair, big: 0 };
                let (id, _, _) = PROPS[r.below(PROPS.len())];
                let mut o = vec![];
                put_val(&mut o, &gen::value(r, id, c));
                let name = match r.below(5) {
                    0 => {
                        let i = r.below(items.len() + 1);
                        items.insert(i, (id as u32, o));
                        "foreign property"
                    }
                    1 => {
                        if items.is_empty() {
                            continue;
                        }
                        let i = r.below(items.len());
                        let d = items[i].clone();
                        let j = r.below(items.len() + 1);
                        items.insert(j, d);
                        "repeated property"
                    }
                    2 => {
                        let n = r.below(4);
                        let i = r.below(items.len() + 1);
                        let id = *r.pick(&[0u32, 4, 5, 6, 7, 0xa, 0xc, 0x10, 0x14, 0x1b, 0x1d, 0x1e, 0x20, 0x2b, 0x2c, 0x7f, 0x80, 0x101, 0x126, 0x100, 0x4001, 0x10001]);
                        items.insert(i, (id, r.bytes(n)));
                        "unknown property"
                    }
                    3 => {
                        if items.is_empty() {
                            continue;
                        }
                        let i = r.below(items.len());
                        items[i].0 = id as u32;
                        "property identifier changed"
                    }
                    _ => {
                        // over-long identifier or property length
                        let extra = r.range(1, 3);
                        let mut bb = b[..at].to_vec();
                        if r.chance(1, 2) && !items.is_empty() {
                            let k = r.below(items.len());
                            let mut pb = vec![];
                            for (i, (id, v)) in items.iter().enumerate() {
                                if i == k {
                                    pb.extend(overlong(*id, extra));
                                } else {
                                    put_varint(&mut pb, *id);
                                }
                                pb.extend_from_slice(v);
                            }
                            put_varint(&mut bb, pb.len() as u32);
                            bb.extend(pb);
                        } else {
                            let mut pb = vec![];
                            for (id, v) in items.iter() {
                                put_varint(&mut pb, *id);
                                pb.extend_from_slice(v);
                            }
                            bb.extend(overlong(pb.len() as u32, extra));
                            bb.extend(pb);
                        }
                        bb.extend_from_slice(&b[at + props_len(p)..]);
                        return (frame(first, &bb), "over-long property length or identifier");
                    }
                };
                let mut bb = b[..at].to_vec();
                bb.extend(raw_props(&items));
                bb.extend_from_slice(&b[at + props_len(p)..]);
                return (frame(first, &bb), name);
            }
            7 => {
                // property length off
                let at = match props_at(p) {
                    Some(a) => a,
                    None => continue,
                };
                let pl = props_len(p);
                let inner = &b[at..at + pl];
                let hl = varint_len(pl - 1).min(pl);
                let cur = pl - hl;
                let new = match r.below(4) {
                    0 => cur + 1,
                    1 => cur.saturating_sub(1),
                    2 => cur + r.range(1, 20),
                    _ => r.below(300),
                };
                let mut bb = b[..at].to_vec();
                put_varint(&mut bb, new as u32);
                bb.extend_from_slice(&inner[hl..]);
                bb.extend_from_slice(&b[at + pl..]);
                return (frame(first, &bb), "property length off");
            }
            8 | 9 => {
                // inner 16-bit length or arbitrary byte off by a bit
                if b.is_empty() {
                    continue;
                }
                let mut bb = b.clone();
                let i = r.below(bb.len().min(300));
                match r.below(4) {
                    0 => bb[i] = bb[i].wrapping_add(1),
                    1 => bb[i] = bb[i].wrapping_sub(1),
                    2 => bb[i] ^= 1 << r.below(8),
                    _ => bb[i] = r.u8(),
                }
                return (frame(first, &bb), "byte changed");
            }
            10 => {
                // reason code space
                let mut q = p.clone();
                match p.ty {
                    CONNACK | PUBACK | PUBREC | PUBREL | PUBCOMP | DISCONNECT | AUTH => q.reason = r.u8(),
                    SUBACK | UNSUBACK => {
                        let i = r.below(q.codes.len());
                        q.codes[i] = r.u8();
                    }
                    _ => continue,
                }
                return (encode(&q), "reason code");
            }
            11 => {
                let mut q = p.clone();
                match p.ty {
                    SUBSCRIBE => {
                        let i = r.below(q.subs.len());
                        q.subs[i].1 = r.u8();
                    }
                    CONNECT => {
                        let f = r.u8();
                        // keep the payload as is: flags and fields may disagree
                        q.flags = f;
                    }
                    CONNACK => q.flags = r.u8(),
                    PUBLISH => q.flags = r.u8() & 0xf,
                    _ => continue,
                }
                return (encode(&q), "flag byte");
            }
            12 | 13 => {
                // string contents
                let bad = *r.pick(BAD_STRS);
                let what = r.below(4);
                let mut bb = b.clone();
                let at = match (p.ty, what) {
                    (PUBLISH, _) => 0,
                    (CONNECT, 0) => 0,
                    (CONNECT, _) => 10 + props_len(p),
                    (SUBSCRIBE | UNSUBSCRIBE, _) => 2 + props_len(p),
                    _ => continue,
                };
                let old = u16::from_be_bytes([bb[at], bb[at + 1]]) as usize;
                let mut s = bad.to_vec();
                if r.chance(1, 2) {
                    let mut pre = b"ab".to_vec();
                    pre.extend(&s);
                    s = pre;
                }
                let mut n = (s.len() as u16).to_be_bytes().to_vec();
                n.extend(s);
                bb.splice(at..at + 2 + old, n);
                return (frame(first, &bb), "bad string");
            }
            14 => {
                let mut q = p.clone();
                match p.ty {
                    PUBLISH => q.topic = r.pick(BAD_TOPICS).to_string(),
                    CONNECT if q.will.is_some() => q.will.as_mut().unwrap().topic = r.pick(BAD_TOPICS).to_string(),
                    SUBSCRIBE => {
                        let i = r.below(q.subs.len());
                        q.subs[i].0 = r.pick(BAD_FILTERS).to_string();
                    }
                    UNSUBSCRIBE => {
                        let i = r.below(q.filters.len());
                        q.filters[i] = r.pick(BAD_FILTERS).to_string();
                    }
                    _ => continue,
                }
                return (encode(&q), "wildcard misuse");
            }
            15 => {
                if p.ty != CONNECT {
                    continue;
                }
                let mut bb = b.clone();
                match r.below(5) {
                    0 => bb[6] = r.u8(),
                    1 => bb[6] = *r.pick(&[3, 4, 6, 0, 0x85]),
                    2 => bb[2 + r.below(4)] ^= 0x20,
                    3 => {
                        bb.splice(0..6, [0, 6, b'M', b'Q', b'I', b's', b'd', b'p']);
                    }
                    _ => {
                        bb.splice(0..6, [0, 3, b'M', b'Q', b'T']);
                    }
                }
                return (frame(first, &bb), "protocol name or version");
            }
            16 => {
                // empty lists
                let mut q = p.clone();
                match p.ty {
                    SUBSCRIBE => q.subs.clear(),
                    UNSUBSCRIBE => q.filters.clear(),
                    SUBACK | UNSUBACK => q.codes.clear(),
                    _ => continue,
                }
                return (encode(&q), "empty list");
            }
            17 => {
                // short forms
                match p.ty {
                    PUBACK | PUBREC | PUBREL | PUBCOMP => {
                        let n = r.range(0, 3);
                        return (frame(first, &b[..n]), "short form");
                    }
                    DISCONNECT | AUTH => {
                        let n = r.range(0, 1);
                        return (frame(first, &b[..n]), "short form");
                    }
                    _ => continue,
                }
            }
            18 => {
                // remaining length larger / smaller than the body; extra bytes follow
                let mut o = vec![first];
                let d = r.range(1, 6);
                let n = if r.chance(1, 2) { b.len().saturating_sub(d) } else { b.len() + d };
                put_varint(&mut o, n as u32);
                o.extend_from_slice(&b);
                o.extend(r.bytes(8));
                return (o, "remaining length off, stream continues");
            }
            19 => {
                // splice with another packet's body
                let ty = r.range(1, 15) as u8;
                let q = gen::packet(r, ty, gen::Cfg { user_pair: false, big: 0 });
                return (frame((ty << 4) | if ty == PUBLISH { r.u8() & 0xf } else { fixed_flags(ty) }, &if r.chance(1, 2) { b.clone() } else { body(&q) }), "type and body mixed");
            }
            20 => {
                if b.len() < 4 {
                    continue;
                }
                let mut bb = b.clone();
                let i = r.below(bb.len());
                let n = r.range(1, 6.min(bb.len() - i));
                if r.chance(1, 2) {
                    bb.drain(i..i + n);
                } else {
                    let ins = r.bytes(n);
                    bb.splice(i..i, ins);
                }
                return (frame(first, &bb), "bytes removed or inserted");
            }
            21 => {
                let n = r.below(40);
                return (frame(first, &r.bytes(n)), "random body");
            }
            22 => {
                let n = r.below(60);
                return (r.bytes(n), "random bytes");
            }
            23 => {
                // several subscription identifiers
                if p.ty != PUBLISH && p.ty != SUBSCRIBE {
                    continue;
                }
                let mut q = p.clone();
                for _ in 0..r.range(2, 3) {
                    q.props.push((0x0b, V::VI(r.range(1, 70_000) as u32)));
                }
                return (encode(&q), "several subscription identifiers");
            }
            24 => {
                // remaining length field of five bytes
                let mut o = vec![first, 0x80 | r.u8(), 0x80 | r.u8(), 0x80 | r.u8(), 0x80 | r.u8()];
                o.push(r.u8());
                o.extend_from_slice(&b);
                return (o, "five byte remaining length");
            }
            _ => {
                // several random byte edits over the whole frame
                let mut o = frame(first, &b);
                for _ in 0..r.range(1, 6) {
                    let i = r.below(o.len());
                    o[i] = match r.below(3) {
                        0 => r.u8(),
                        1 => o[i] ^ (1 << r.below(8)),
                        _ => *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
                    };
                }
                return (o, "random edits");
            }
        }
    }
    (frame(first, &b), "none")
}
