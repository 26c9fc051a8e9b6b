//! What the interpreter (Miri) executes: the codec on generated and broken input, and the
//! subscription table from several threads.
//! usage: mirick corpus SEED N PARTS FILE | codec FILE SECONDS | table SEED SECONDS
#[path = "../../codec/src/bufs.rs"]
#[allow(dead_code)]
mod bufs;
use apiformes_packet::prelude::*;
#[cfg(verif_hooks)]
use apiformes_server_lib::verif_hooks::{SubscriptionFlags, TopicsTable};
use bytes::{Bytes, BytesMut};
use refmqtt::rng::{fnv, Rng};
use refmqtt::wire::*;
use refmqtt::{gen, mutate};
use std::collections::HashSet;
#[cfg(verif_hooks)]
use std::sync::Arc;
use std::time::{Duration, Instant};

/// read everything a packet hands out, cheaply: the interpreter is slow
fn touch(p: &Packet) -> usize {
    fn text(s: &str) -> usize {
        assert!(std::str::from_utf8(s.as_bytes()).is_ok(), "str with invalid UTF-8 handed out");
        s.chars().count()
    }
    fn props<'a>(it: impl Iterator<Item = (&'a Property, &'a MqttPropValue)>) -> usize {
        it.map(|(_, v)| {
            v.into_str().map_or(0, |s| text(s))
                + v.into_str_pair().map_or(0, |(a, b)| text(a) + text(b))
                + v.into_data().map_or(0, |b| b.iter().map(|x| *x as usize).sum())
        })
        .sum()
    }
    match p {
        Packet::Connect(c) => {
            text(c.clientid())
                + props(c.props_iter())
                + c.username().map_or(0, |s| text(s))
                + c.password().map_or(0, |b| b.iter().map(|x| *x as usize).sum())
                + c.will().map_or(0, |w| text(w.topic()) + props(w.props_iter()))
        }
        Packet::ConnAck(c) => props(c.props_iter()),
        Packet::Publish(c) => text(c.topic_name()) + props(c.props_iter()) + c.payload().iter().map(|x| *x as usize).sum::<usize>(),
        Packet::PubAck(c) => props(c.props_iter()),
        Packet::PubRec(c) => props(c.props_iter()),
        Packet::PubRel(c) => props(c.props_iter()),
        Packet::PubComp(c) => props(c.props_iter()),
        Packet::Subscribe(c) => c.topics_iter().map(|(t, _)| text(t)).sum::<usize>() + props(c.props_iter()),
        Packet::Unsubscribe(c) => c.topics_iter().map(|t| text(t)).sum::<usize>() + props(c.props_iter()),
        Packet::SubAck(c) => c.reason_codes().len() + props(c.props_iter()),
        Packet::UnsubAck(c) => c.reason_codes().len() + props(c.props_iter()),
        Packet::Disconnect(c) => props(c.props_iter()),
        Packet::Auth(c) => props(c.props_iter()),
        Packet::PingReq(_) | Packet::PingRes(_) => 0,
    }
}
fn decode_all(i: usize, b: &[u8]) -> bool {
    let mut ok = false;
    let mut go = |x: Result<Packet, DataParseError>| match x {
        Ok(p) => {
            ok = true;
            let mut v = Vec::with_capacity(p.frame_len());
            p.to_bytes(&mut v);
            std::hint::black_box(touch(&p) + v.iter().map(|x| *x as usize).sum::<usize>());
        }
        Err(e) => drop(std::hint::black_box(e)),
    };
    match i % 4 {
        0 => go(Packet::from_bytes(&mut Bytes::copy_from_slice(b))),
        1 => go(Packet::from_bytes(&mut BytesMut::from(b))),
        2 => go(Packet::from_bytes(&mut bufs::Seg::new(b, vec![b.len() / 3, b.len() / 2, b.len() - b.len() / 4]))),
        _ => go(Packet::from_bytes(&mut std::io::Cursor::new(b))),
    }
    ok
}
/// outside the interpreter: write inputs, length first
fn corpus(r: &mut Rng, n: usize, parts: usize, file: &str) {
    let c = gen::Cfg { user_pair: false, big: 0 };
    let mut out = vec![vec![]; parts];
    let mut seen = HashSet::new();
    for i in 0..n {
        let mut p = gen::packet(r, (i / 6 % 15 + 1) as u8, c);
        if i % 6 == 5 && p.ty == PUBLISH {
            let n = r.below(60);
            p.topic.push_str(&"abcdefghij/".repeat(6)[..n]);
        }
        let mut b = encode(&p);
        match i % 6 {
            0 | 1 => (),
            2 => b.truncate(r.below(b.len())),
            3 | 4 => b = mutate::mutant(r, &p).0,
            // text that is no text: anywhere, or in the middle of something longer
            _ => {
                if r.chance(1, 2) {
                    let mut run = 0;
                    for k in 0..b.len() {
                        run = if b[k] >= 0x20 && b[k] < 0x7f { run + 1 } else { 0 };
                        if run > 2 && r.chance(1, 12) {
                            b[k - 1] = *r.pick(&[0x80u8, 0xbf, 0xc0, 0xc3, 0xf5, 0xff]);
                            break;
                        }
                    }
                }
                for _ in 0..r.range(1, 3) {
                    let k = r.range(if b.len() > 4 { 4 } else { 0 }, b.len() - 1);
                    b[k] = *r.pick(&[0x80u8, 0xbf, 0xc0, 0xc3, 0xe0, 0xed, 0xf0, 0xf5, 0xff, 0]);
                }
            }
        }
        // no input twice, so that what a run executes is distinct
        if b.len() < 400 && seen.insert(fnv(&b)) {
            let f = &mut out[i / 6 % parts];
            f.extend_from_slice(&(b.len() as u16).to_be_bytes());
            f.extend_from_slice(&b);
        }
    }
    for (i, o) in out.iter().enumerate() {
        std::fs::write(format!("{file}.{i}"), o).unwrap();
    }
}
fn codec(file: &str, end: Instant) {
    let all = std::fs::read(file).unwrap();
    let (mut n, mut good, mut nontrivial, mut at) = (0usize, 0u64, 0u64, 0usize);
    while at < all.len() && Instant::now() < end {
        let l = u16::from_be_bytes([all[at], all[at + 1]]) as usize;
        good += decode_all(n, &all[at + 2..at + 2 + l]) as u64;
        nontrivial += (l > 4) as u64;
        at += 2 + l;
        n += 1;
    }
    println!("COUNT codec inputs={n} nontrivial={nontrivial} accepted={good} bytes={at}");
}
#[cfg(verif_hooks)]
fn table(r: &mut Rng, end: Instant) {
    let (mut runs, mut ops, mut orders) = (0u64, 0u64, HashSet::new());
    while Instant::now() < end {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_time().build().unwrap();
        let t = Arc::new(TopicsTable::new());
        let log = Arc::new(std::sync::Mutex::new(vec![]));
        let mut hs = vec![];
        for task in 0..3u64 {
            let (t, mut r, log) = (t.clone(), r.fork(runs * 8 + task), log.clone());
            hs.push(rt.spawn(async move {
                let c: Arc<str> = Arc::from(format!("c{task}"));
                let fs = ["a/b", "a/+", "#", "a/#", "+/b", "$s/#"];
                for _ in 0..8 {
                    let f = *r.pick(&fs);
                    match r.below(5) {
                        0 | 1 => t.subscribe(c.clone(), Arc::from(f), QoS::QoS0, SubscriptionFlags::from_bits(0).unwrap()).await,
                        2 => t.unsubscribe(c.clone(), f).await,
                        3 => {
                            let g = t.get_all_subscribed(*r.pick(&["a/b", "a", "$s/x"])).await;
                            let n: usize = g.iter().map(|(k, _)| k.chars().count()).sum();
                            std::hint::black_box(n);
                        }
                        _ => t.unsubscribe_all(c.clone()).await,
                    }
                    log.lock().unwrap().push(task as u8);
                }
            }));
        }
        rt.block_on(async {
            for h in hs {
                h.await.unwrap();
            }
        });
        runs += 1;
        ops += 24;
        orders.insert(fnv(&log.lock().unwrap()));
    }
    println!("COUNT table runs={runs} operations={ops} orders={}", orders.len());
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> usize { a[i].parse().unwrap() };
    let end = |i: usize| Instant::now() + Duration::from_secs(n(i) as u64);
    match a[1].as_str() {
        "corpus" => corpus(&mut Rng::new(n(2) as u64), n(3), n(4), &a[5]),
        "codec" => codec(&a[2], end(3)),
        #[cfg(verif_hooks)]
        "table" => table(&mut Rng::new(n(2) as u64), end(3)),
        _ => std::process::exit(2),
    }
}
