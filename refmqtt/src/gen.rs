//! Generator of well-formed packets (in the given user-property dialect).
use crate::rng::Rng;
use crate::wire::*;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub user_pair: bool,
    /// sometimes use lengths around encoding boundaries (up to this many bytes in one field)
    pub big: usize,
}
const ALPHA: &[&str] = &[
    "a", "b", "x", "Z", "0", "9", " ", "-", "_", ".", "é", "ß", "中", "😀", "\u{feff}", "ï", "ÿ", "\u{a0}", "\u{7ff}", "\u{800}",
    "\u{d7ff}", "\u{e000}", "\u{10000}", "~", "!", "$", "\\", "\"",
];
pub fn gstr(r: &mut Rng, max: usize) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2..=6 => r.below(max.min(24) + 1),
        _ => r.below(max + 1),
    };
    gstr_len(r, n)
}
/// exactly n bytes
pub fn gstr_len(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    if n > 300 {
        // long strings: cheap filling with a random multi-byte prefix/suffix
        let (a, b) = (r.below(40), r.below(40));
        let pre = gstr_len(r, a);
        let post = gstr_len(r, b);
        let fill = n - pre.len() - post.len();
        s.push_str(&pre);
        let c = *r.pick(&['k', 'q', '7']);
        for _ in 0..fill {
            s.push(c);
        }
        s.push_str(&post);
        return s;
    }
    while s.len() < n {
        let c = *r.pick(ALPHA);
        if s.len() + c.len() <= n {
            s.push_str(c);
        } else {
            s.push('e');
        }
    }
    s
}
/// interesting lengths of a 16-bit counted field
fn big_len(r: &mut Rng, max: usize) -> usize {
    let l = *r.pick(&[125usize, 126, 127, 128, 129, 255, 256, 257, 1000, 16_380, 16_383, 16_384, 16_390, 65_533, 65_534, 65_535]);
    l.min(max).min(65_535)
}
pub fn field_str(r: &mut Rng, c: Cfg) -> String {
    if c.big > 0 && r.chance(1, 40) {
        let n = big_len(r, c.big);
        gstr_len(r, n)
    } else if r.chance(1, 10) {
        let n = r.range(25, 200);
        gstr_len(r, n)
    } else {
        gstr(r, 40)
    }
}
pub fn field_bin(r: &mut Rng, c: Cfg) -> Vec<u8> {
    if c.big > 0 && r.chance(1, 40) {
        let n = big_len(r, c.big);
        r.bytes(n)
    } else {
        let n = r.below(30);
        r.bytes(n)
    }
}
pub fn topic_level(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "a".into(),
        2 => "b".into(),
        3 => "sensor".into(),
        4 => "é中".into(),
        _ => format!("t{}", r.below(20)),
    }
}
pub fn topic(r: &mut Rng, c: Cfg) -> String {
    loop {
        let t = if c.big > 0 && r.chance(1, 60) {
            let n = big_len(r, c.big);
            gstr_len(r, n)
        } else {
            let n = r.range(1, 5);
            let mut v: Vec<String> = (0..n).map(|_| topic_level(r)).collect();
            if r.chance(1, 12) {
                v[0] = (*r.pick(&["$SYS", "$SYS", "$SYS", "$", "$s"])).into();
            }
            if r.chance(1, 12) {
                let l = r.below(n);
                v[l] = (*r.pick(&["$", "$SYS", "$x", if l > 0 { "$share" } else { "$sharex" }])).into();
            }
            if r.chance(1, 12) {
                let (l, n) = (r.below(n), r.range(5, 100));
                v[l] = gstr_len(r, n);
            }
            v.join("/")
        };
        if !t.is_empty() {
            return t;
        }
    }
}
pub fn filter(r: &mut Rng, c: Cfg) -> String {
    loop {
        let t = topic(r, c);
        let mut v: Vec<String> = t.split('/').map(|s| s.to_string()).collect();
        for l in v.iter_mut() {
            if r.chance(1, 4) {
                *l = "+".into();
            }
        }
        match r.below(5) {
            0 => v.push("#".into()),
            1 => {
                let n = v.len() - 1;
                v[n] = "#".into();
            }
            _ => {}
        }
        let f = v.join("/");
        if !f.is_empty() && f.len() <= 65_535 && !f.starts_with("$share") {
            return f;
        }
    }
}
pub fn value(r: &mut Rng, id: u8, c: Cfg) -> V {
    let (k, _) = prop_info(id).unwrap();
    match k {
        K::U8 => V::U8(if BOOL_PROPS.contains(&id) { r.u8() & 1 } else { r.u8() }),
        K::U16 => V::U16(*r.pick(&[1u16, 2, 255, 256, 0x1234, 0xff00, 65_535])),
        K::U32 => V::U32(*r.pick(&[1u32, 255, 256, 65_535, 65_536, 0x0102_0304, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff])),
        K::VI => V::VI(*r.pick(&[1u32, 127, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455])),
        K::S if id == 0x08 => V::S(topic(r, c)),
        K::S => V::S(field_str(r, c)),
        K::B => V::B(field_bin(r, c)),
        K::P if c.user_pair => V::P(field_str(r, c), field_str(r, c)),
        K::P => V::S(field_str(r, c)),
    }
}
pub fn props(r: &mut Rng, owner: u8, c: Cfg) -> Props {
    let legal: Vec<u8> = PROPS.iter().filter(|p| p.2.contains(&owner)).map(|p| p.0).collect();
    let mut out: Props = vec![];
    if r.chance(1, 4) {
        return out;
    }
    let all = r.chance(1, 12);
    for id in &legal {
        if all || r.chance(1, 3) {
            let m = if r.chance(1, 10) { 30 } else { 3 };
            let n = if *id != 0x26 {
                1
            } else if c.big > 0 && r.chance(1, 150) {
                *r.pick(&[64usize, 128, 255, 256, 257, 1000, 1025, 4100])
            } else {
                r.range(1, m)
            };
            let c = if n > 30 { Cfg { big: 0, ..c } } else { c };
            for _ in 0..n {
                out.push((*id, value(r, *id, c)));
            }
        }
    }
    if out.iter().any(|p| p.0 == 0x16) && !out.iter().any(|p| p.0 == 0x15) {
        out.push((0x15, value(r, 0x15, c)));
    }
    // wire order is free between properties; order within repeated ones is kept by construction
    r.shuffle(&mut out);
    out
}
pub fn pid(r: &mut Rng) -> u16 {
    *r.pick(&[1u16, 2, 127, 128, 255, 256, 257, 0x1234, 0x8000, 0xff00, 65_535])
}
pub fn reason(r: &mut Rng, ty: u8) -> u8 {
    *r.pick(reason_codes(ty))
}
pub fn payload(r: &mut Rng, c: Cfg) -> Vec<u8> {
    if c.big > 0 && r.chance(1, 25) {
        let l = *r.pick(&[100usize, 127, 128, 16_300, 16_383, 16_384, 70_000, 2_097_100, 2_097_151, 2_097_152]);
        let n = l.min(c.big);
        r.bytes(n)
    } else {
        let n = r.below(60);
        r.bytes(n)
    }
}
/// length of a list
fn many(r: &mut Rng, c: Cfg, usual: usize) -> usize {
    if c.big > 0 && r.chance(1, 100) {
        let n = *r.pick(&[255usize, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 16_390]);
        n.min(c.big / 4).max(1)
    } else if r.chance(1, 20) {
        r.range(5, usual)
    } else {
        r.range(1, 4)
    }
}
pub fn packet(r: &mut Rng, ty: u8, c: Cfg) -> Pkt {
    let mut p = Pkt::new(ty);
    match ty {
        CONNECT => {
            p.keep_alive = *r.pick(&[0u16, 1, 5, 60, 255, 256, 0x0102, 65_535]);
            p.client_id = field_str(r, c);
            p.props = props(r, CONNECT, c);
            p.flags = if r.chance(1, 2) { 2 } else { 0 };
            if r.chance(1, 2) {
                p.flags |= 4 | ((r.below(3) as u8) << 3) | if r.chance(1, 2) { 0x20 } else { 0 };
                p.will = Some(Will { props: props(r, WILL, c), topic: topic(r, c), payload: field_bin(r, c) });
            }
            if r.chance(1, 2) {
                p.flags |= 0x80;
                p.username = Some(field_str(r, c));
            }
            if r.chance(1, 2) {
                p.flags |= 0x40;
                p.password = Some(field_bin(r, c));
            }
        }
        CONNACK => {
            p.reason = reason(r, ty);
            p.flags = if p.reason == 0 && r.chance(1, 2) { 1 } else { 0 };
            p.props = props(r, ty, c);
        }
        PUBLISH => {
            let q = r.below(3) as u8;
            p.flags = (q << 1) | r.below(2) as u8 | if q > 0 && r.chance(1, 2) { 8 } else { 0 };
            p.topic = topic(r, c);
            if q > 0 {
                p.id = Some(pid(r));
            }
            p.props = props(r, ty, c);
            if r.chance(1, 20) && p.prop(0x23).is_some() {
                p.topic = String::new();
            }
            p.payload = payload(r, c);
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            p.id = Some(pid(r));
            p.reason = reason(r, ty);
            p.props = props(r, ty, c);
        }
        SUBSCRIBE => {
            p.id = Some(pid(r));
            p.props = props(r, ty, c);
            let n = many(r, c, 60);
            let c = if n > 60 { Cfg { big: 0, ..c } } else { c };
            for _ in 0..n {
                let o = (r.below(3) | (r.below(4) << 2) | (r.below(3) << 4)) as u8;
                p.subs.push((filter(r, c), o));
            }
        }
        UNSUBSCRIBE => {
            p.id = Some(pid(r));
            p.props = props(r, ty, c);
            let n = many(r, c, 60);
            let c = if n > 60 { Cfg { big: 0, ..c } } else { c };
            for _ in 0..n {
                p.filters.push(filter(r, c));
            }
        }
        SUBACK | UNSUBACK => {
            p.id = Some(pid(r));
            p.props = props(r, ty, c);
            let n = many(r, c, 300);
            for _ in 0..n {
                p.codes.push(reason(r, ty));
            }
        }
        PINGREQ | PINGRESP => {}
        DISCONNECT | AUTH => {
            p.reason = reason(r, ty);
            p.props = props(r, ty, c);
        }
        _ => panic!(),
    }
    p
}
/// shape key: what makes two packets structurally different
pub fn shape(p: &Pkt) -> String {
    let l = |n: usize| match n {
        0 => 0,
        1..=127 => 1,
        128..=16_383 => 2,
        16_384..=65_535 => 3,
        65_536..=2_097_151 => 4,
        _ => 5,
    };
    let ps = |p: &Props| {
        let mut v: Vec<String> = p.iter().map(|(i, _)| format!("{:x}", i)).collect();
        v.dedup();
        v.join(".")
    };
    format!(
        "{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}",
        p.ty, p.flags, p.reason, ps(&p.props),
        p.will.as_ref().map(|w| format!("{},{},{}", ps(&w.props), l(w.topic.len()), l(w.payload.len()))).unwrap_or_default(),
        l(p.topic.len()), l(p.payload.len()), l(p.client_id.len()),
        p.username.as_ref().map(|u| l(u.len())).unwrap_or(9),
        p.password.as_ref().map(|u| l(u.len())).unwrap_or(9),
        p.subs.len().min(6) + 10 * p.filters.len().min(6) + 100 * p.codes.len().min(6),
        l(body(p).len()),
    )
}
