//! Conversions between the repository's packets and the reference representation.
use apiformes_packet::prelude::*;
use bytes::Bytes;
use refmqtt::gen;
use refmqtt::rng::Rng;
use refmqtt::wire::{self, *};
use std::sync::Arc;

pub type Perr = DataParseError;

/// The dialect the code implements: the specification minus the known findings.
pub const DIALECT: Mode = Mode { user_pair: false, short: false, multi_sid: false };

pub const PROP: &[(u8, Property)] = &[
    (0x01, Property::PayloadFormatIndicator),
    (0x02, Property::MessageExpiryInterval),
    (0x03, Property::ContentType),
    (0x08, Property::ResponseTopic),
    (0x09, Property::CorrelationData),
    (0x0b, Property::SubscriptionIdentifier),
    (0x11, Property::SessionExpiryInterval),
    (0x12, Property::AssignedClientIdentifier),
    (0x13, Property::ServerKeepAlive),
    (0x15, Property::AuthenticationMethod),
    (0x16, Property::AuthenticationData),
    (0x17, Property::RequestProblemInformation),
    (0x18, Property::WillDelayInterval),
    (0x19, Property::RequestResponseInformation),
    (0x1a, Property::ResponseInformation),
    (0x1c, Property::ServerReference),
    (0x1f, Property::ReasonString),
    (0x21, Property::ReceiveMaximum),
    (0x22, Property::TopicAliasMaximum),
    (0x23, Property::TopicAlias),
    (0x24, Property::MaximumQoS),
    (0x25, Property::RetainAvailable),
    (0x26, Property::UserProperty),
    (0x27, Property::MaximumPacketSize),
    (0x28, Property::WildcardSubscriptionAvailable),
    (0x29, Property::SubscriptionIdentifierAvailable),
    (0x2a, Property::SharedSubscriptionAvailable),
];
pub fn prop_of(id: u8) -> Property {
    PROP.iter().find(|p| p.0 == id).unwrap().1
}
pub fn id_of(p: Property) -> u8 {
    PROP.iter().find(|x| x.1 == p).unwrap().0
}

macro_rules! codes {
    ($name:ident, $t:ty, $($v:literal => $n:ident),* $(,)?) => {
        pub fn $name(c: u8) -> $t { match c { $($v => <$t>::$n,)* _ => panic!("reason {}", c) } }
    };
}
codes!(connack_code, ConnAckReasonCode, 0x00 => Success, 0x80 => UnspecifiedError, 0x81 => MalformedPacket, 0x82 => ProtocolError,
    0x83 => ImplementationSpecificError, 0x84 => UnsupportedProtocolVersion, 0x85 => ClientIdentifierNotValid, 0x86 => BadUserNameOrPassword,
    0x87 => NotAuthorized, 0x88 => ServerUnavailable, 0x89 => ServerBusy, 0x8a => Banned, 0x8c => BadAuthenicationMethod, 0x90 => TopicNameInvalid,
    0x95 => PacketTooLarge, 0x97 => QuotaExceeded, 0x99 => PayloadFormatInvalid, 0x9a => RetainNotSupported, 0x9b => QoSNotSupported,
    0x9c => UseAnotherServer, 0x9d => ServerMoved, 0x9f => ConnectionRateExceeded);
codes!(puback_code, PubAckReasonCode, 0x00 => Success, 0x10 => NoMatchingSubscribers, 0x80 => UnspecifiedError, 0x83 => ImplementationSpecificError,
    0x87 => NotAuthorized, 0x90 => TopicNameInvalid, 0x91 => PacketIdentifierInUse, 0x97 => QuotaExceeded, 0x99 => PayloadFormatInvalid);
codes!(pubrec_code, PubRecReasonCode, 0x00 => Success, 0x10 => NoMatchingSubscribers, 0x80 => UnspecifiedError, 0x83 => ImplementationSpecificError,
    0x87 => NotAuthorized, 0x90 => TopicNameInvalid, 0x91 => PacketIdentifierInUse, 0x97 => QuotaExceeded, 0x99 => PayloadFormatInvalid);
codes!(pubrel_code, PubRelReasonCode, 0x00 => Success, 0x92 => PacketIdentifierNotFound);
codes!(pubcomp_code, PubCompReasonCode, 0x00 => Success, 0x92 => PacketIdentifierNotFound);
codes!(suback_code, SubAckReasonCode, 0x00 => GrantedQoS0, 0x01 => GrantedQoS1, 0x02 => GrantedQoS2, 0x80 => UnspecifiedError,
    0x83 => ImplementationSpecificError, 0x87 => NotAuthorized, 0x8f => TopicFilterInvalid, 0x91 => PacketIdentifierInUse, 0x97 => QuotaExceeded,
    0x9e => SharedSubscriptionsNotSupported, 0xa1 => SubscriptionIdentifiersNotSupported, 0xa2 => WildcardSubscriptionsNotSupported);
codes!(unsuback_code, UnsubAckReasonCode, 0x00 => Success, 0x11 => NoSubscriptionExisted, 0x80 => UnspecifiedError, 0x83 => ImplementationSpecificError,
    0x87 => NotAuthorized, 0x8f => TopicFilterInvalid, 0x91 => PacketIdentifierInUse);
codes!(disconnect_code, DisconnectReasonCode, 0x00 => NormalDisconnection, 0x04 => DisconnectWithWillMessage, 0x80 => UnspecifiedError,
    0x81 => MalformedPacket, 0x82 => ProtocolError, 0x83 => ImplementationSpecificError, 0x87 => NotAuthorized, 0x89 => ServerBusy,
    0x8b => ServerShuttingDown, 0x8c => BadAuthenicationMethod, 0x8d => KeepAliveTimeout, 0x8e => SessionTakenOver, 0x8f => TopicFilterInvalid,
    0x90 => TopicNameInvalid, 0x93 => ReceiveMaximumExceeded, 0x94 => TopicAliasInvalid, 0x95 => PacketTooLarge, 0x96 => MessageRateTooHigh,
    0x97 => QuotaExceeded, 0x98 => AdministrativeAction, 0x99 => PayloadFormatInvalid, 0x9a => RetainNotSupported, 0x9b => QoSNotSupported,
    0x9c => UseAnotherServer, 0x9d => ServerMoved, 0x9e => SharedSubscriptionsNotSupported, 0x9f => ConnectionRateExceeded,
    0xa0 => MaximumConnectTime, 0xa1 => SubscriptionIdentifiersNotSupported, 0xa2 => WildcardSubscriptionsNotSupported);
codes!(auth_code, AuthReasonCode, 0x00 => Success, 0x18 => ContinueAuthentication, 0x19 => ReAuthenticate);

// reason code -> spec value, by name again (never through the code's own cast)
macro_rules! back {
    ($name:ident, $t:ty, $f:ident, $ty:expr) => {
        pub fn $name(c: $t) -> u8 {
            for v in wire::reason_codes($ty) {
                if std::mem::discriminant(&$f(*v)) == std::mem::discriminant(&c) {
                    return *v;
                }
            }
            panic!("unknown reason code variant")
        }
    };
}
back!(connack_val, ConnAckReasonCode, connack_code, CONNACK);
back!(puback_val, PubAckReasonCode, puback_code, PUBACK);
back!(pubrec_val, PubRecReasonCode, pubrec_code, PUBREC);
back!(pubrel_val, PubRelReasonCode, pubrel_code, PUBREL);
back!(pubcomp_val, PubCompReasonCode, pubcomp_code, PUBCOMP);
back!(suback_val, SubAckReasonCode, suback_code, SUBACK);
back!(unsuback_val, UnsubAckReasonCode, unsuback_code, UNSUBACK);
back!(disconnect_val, DisconnectReasonCode, disconnect_code, DISCONNECT);
back!(auth_val, AuthReasonCode, auth_code, AUTH);

pub fn arc(s: &str) -> Arc<str> {
    Arc::from(s)
}
pub fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        2 => QoS::QoS2,
        _ => panic!(),
    }
}
/// candidate values for a property: one byte values may be Byte or Bool in the code
pub fn values(v: &V) -> Result<Vec<MqttPropValue>, Perr> {
    Ok(match v {
        V::U8(x) if *x <= 1 => vec![MqttPropValue::new_bool(*x == 1), MqttPropValue::new_u8(*x)],
        V::U8(x) => vec![MqttPropValue::new_u8(*x)],
        V::U16(x) => vec![MqttPropValue::new_u16(*x)],
        V::U32(x) => vec![MqttPropValue::new_u32(*x)],
        V::VI(x) => vec![MqttPropValue::new_varint(*x)?],
        V::S(s) => vec![MqttPropValue::new_string(arc(s))?],
        V::B(b) => vec![MqttPropValue::new_data(&b[..])?],
        V::P(a, b) => vec![MqttPropValue::new_string_pair(arc(a), arc(b))?],
    })
}
pub fn add(v: &V, mut f: impl FnMut(MqttPropValue) -> Result<(), Perr>) -> Result<(), Perr> {
    let mut last = Ok(());
    for c in values(v)? {
        last = f(c);
        if last.is_ok() {
            return last;
        }
    }
    last
}
pub fn new_will(w: &wire::Will) -> Result<apiformes_packet::prelude::Will, Perr> {
    let mut x = apiformes_packet::prelude::Will::new(arc(&w.topic), &w.payload[..])?;
    if draft() {
        let (t, b) = with_rng(|r| (gen::topic(r, SMALL), gen::payload(r, SMALL)));
        x = apiformes_packet::prelude::Will::new(arc(&t), &b[..])?;
        x.set_payload(&w.payload[..])?;
        x.set_topic(arc(&w.topic))?;
    }
    for (i, _) in &w.props {
        if let Some(v) = draft_prop(*i) {
            add(&v, |c| x.add_prop(prop_of(*i), c))?;
        }
    }
    for (i, v) in &w.props {
        add(v, |c| x.add_prop(prop_of(*i), c))?;
    }
    Ok(x)
}
thread_local! {
    /// when set, builders are given values that are replaced again before the packet is built
    pub static DRAFTS: std::cell::RefCell<Option<Rng>> = std::cell::RefCell::new(None);
}
/// true now and then, when drafts are on
fn draft() -> bool {
    DRAFTS.with(|d| d.borrow_mut().as_mut().map(|r| r.chance(1, 4)).unwrap_or(false))
}
fn with_rng<T>(f: impl FnOnce(&mut Rng) -> T) -> T {
    DRAFTS.with(|d| f(d.borrow_mut().as_mut().unwrap()))
}
const SMALL: gen::Cfg = gen::Cfg { user_pair: false, big: 0 };
/// a property that may appear once only: setting it again replaces it
fn draft_prop(id: u8) -> Option<V> {
    if id != 0x26 && id != 0x0b && draft() {
        return Some(with_rng(|r| gen::value(r, id, SMALL)));
    }
    None
}
/// Build a packet through the public builders.
pub fn build(p: &Pkt) -> Result<Packet, Perr> {
    macro_rules! props {
        ($b:ident) => {
            for (i, _) in &p.props {
                if let Some(v) = draft_prop(*i) {
                    add(&v, |c| $b.add_prop(prop_of(*i), c))?;
                }
            }
            for (i, v) in &p.props {
                add(v, |c| $b.add_prop(prop_of(*i), c))?;
            }
        };
    }
    macro_rules! ack {
        ($t:ident, $code:ident) => {{
            let mut b = $t::new(p.id.unwrap());
            if draft() {
                b.set_reason_code($code(with_rng(|r| gen::reason(r, p.ty))));
            }
            b.set_reason_code($code(p.reason));
            props!(b);
            b.build()
        }};
    }
    Ok(match p.ty {
        CONNECT => {
            let mut b = Connect::new(arc(&p.client_id))?;
            if draft() {
                b.set_keep_alive(!p.keep_alive);
            }
            b.set_keep_alive(p.keep_alive);
            if p.flags & 2 != 0 {
                b.set_clean_start();
            }
            props!(b);
            if let Some(w) = &p.will {
                if draft() {
                    let (t, l) = with_rng(|r| (gen::topic(r, SMALL), gen::payload(r, SMALL)));
                    let mut d = apiformes_packet::prelude::Will::new(arc(&t), &l[..])?;
                    for id in [0x18, 0x03] {
                        if let Some(v) = draft_prop(id) {
                            add(&v, |c| d.add_prop(prop_of(id), c))?;
                        }
                    }
                    b.set_will(d);
                    b.set_will_qos(qos(with_rng(|r| r.below(3)) as u8))?;
                }
                b.set_will(new_will(w)?);
                b.set_will_qos(qos((p.flags >> 3) & 3))?;
                if p.flags & 0x20 != 0 {
                    b.set_will_retain()?;
                }
            }
            if let Some(u) = &p.username {
                if draft() {
                    b.set_username(arc(&with_rng(|r| gen::field_str(r, SMALL))))?;
                }
                b.set_username(arc(u))?;
            }
            if let Some(u) = &p.password {
                if draft() {
                    b.set_password(&with_rng(|r| gen::field_bin(r, SMALL))[..])?;
                }
                b.set_password(&u[..])?;
            }
            b.build()
        }
        CONNACK => {
            let mut b = ConnAck::new();
            if p.flags & 1 != 0 {
                b.set_session_present();
            }
            if draft() {
                b.set_reason_code(connack_code(with_rng(|r| gen::reason(r, CONNACK))));
            }
            b.set_reason_code(connack_code(p.reason));
            props!(b);
            b.build()
        }
        PUBLISH => {
            let mut b = Publish::new(arc(&p.topic), Bytes::copy_from_slice(&p.payload))?;
            if draft() {
                let n = with_rng(|r| r.below(3)) as u8;
                b.set_qos(qos(n));
                if n > 0 {
                    b.set_packet_identifier(!p.id.unwrap_or(7))?;
                }
                let l = with_rng(|r| gen::payload(r, SMALL));
                b.set_payload(&l[..]);
                if l.len() % 2 == 0 {
                    b.set_payload(&p.payload[..]);
                } else {
                    b.set_payload_bytes(Bytes::copy_from_slice(&p.payload));
                }
            }
            b.set_qos(qos(p.qos()));
            if p.flags & 1 != 0 {
                b.set_retain();
            }
            if p.flags & 8 != 0 {
                b.set_dup();
            }
            if let Some(i) = p.id {
                b.set_packet_identifier(i)?;
            }
            props!(b);
            b.build()
        }
        PUBACK => ack!(PubAck, puback_code),
        PUBREC => ack!(PubRec, pubrec_code),
        PUBREL => ack!(PubRel, pubrel_code),
        PUBCOMP => ack!(PubComp, pubcomp_code),
        SUBSCRIBE => {
            let mut b = Subscribe::new(p.id.unwrap());
            props!(b);
            for (f, o) in &p.subs {
                b.add_topic(arc(f), SubscriptionOptions::from_bits(*o).unwrap())?;
            }
            b.build()
        }
        UNSUBSCRIBE => {
            let mut b = Unsubscribe::new(p.id.unwrap());
            props!(b);
            for f in &p.filters {
                b.add_topic(arc(f))?;
            }
            b.build()
        }
        SUBACK => {
            let mut b = SubAck::new(p.id.unwrap());
            props!(b);
            for c in &p.codes {
                b.add_reason_code(suback_code(*c));
            }
            b.build()
        }
        UNSUBACK => {
            let mut b = UnsubAck::new(p.id.unwrap());
            props!(b);
            for c in &p.codes {
                b.add_reason_code(unsuback_code(*c));
            }
            b.build()
        }
        PINGREQ => Ping::new().build_req(),
        PINGRESP => Ping::new().build_res(),
        DISCONNECT => {
            let mut b = Disconnect::new(disconnect_code(p.reason));
            props!(b);
            b.build()
        }
        AUTH => {
            let mut b = Auth::new(auth_code(p.reason));
            props!(b);
            b.build()
        }
        _ => panic!(),
    })
}
/// Read a property value through the accessor its MQTT type calls for.
fn val(id: u8, v: &MqttPropValue) -> V {
    let (k, _) = prop_info(id).unwrap();
    // the accessors of other types must not answer
    let answers = [v.into_u8().is_some() || v.into_bool().is_some(), v.into_u16().is_some(), v.into_u32().is_some(), v.into_data().is_some(), v.into_str().is_some() || v.into_str_pair().is_some()];
    if answers.iter().filter(|x| **x).count() > 1 {
        panic!("property {:#x} is handed out as several types: {:?}", id, answers);
    }
    let miss = || V::S(format!("<no accessor yields property {:#x}>", id));
    match k {
        K::U8 => match (v.into_u8(), v.into_bool()) {
            (Some(x), _) => V::U8(x),
            (None, Some(b)) => V::U8(b as u8),
            _ => miss(),
        },
        K::U16 => v.into_u16().map(V::U16).unwrap_or_else(miss),
        K::U32 => v.into_u32().map(V::U32).unwrap_or_else(miss),
        K::VI => v.into_u32().map(V::VI).unwrap_or_else(miss),
        K::B => v.into_data().map(|b| V::B(b.to_vec())).unwrap_or_else(miss),
        K::S => v.into_str().map(|s| V::S(utf8(s))).unwrap_or_else(miss),
        K::P => match (v.into_str_pair(), v.into_str()) {
            (Some((a, b)), _) => V::P(utf8(a), utf8(b)),
            (_, Some(s)) => V::S(utf8(s)),
            _ => miss(),
        },
    }
}
/// every string handed out must be valid UTF-8
fn utf8(s: &str) -> String {
    std::str::from_utf8(s.as_bytes()).expect("str with invalid UTF-8 handed out").to_string()
}
fn props<'a>(it: impl Iterator<Item = (&'a Property, &'a MqttPropValue)>) -> Props {
    it.map(|(k, v)| (id_of(*k), val(id_of(*k), v))).collect()
}
/// Check that get_prop and props_iter agree, then return the properties.
macro_rules! ps {
    ($x:expr) => {{
        let it = props($x.props_iter());
        for (id, p) in PROP {
            let got: Vec<V> = $x.get_prop(*p).map(|s| s.iter().map(|v| val(*id, v)).collect()).unwrap_or_default();
            let want: Vec<V> = it.iter().filter(|q| q.0 == *id).map(|q| q.1.clone()).collect();
            if got != want {
                panic!("get_prop and props_iter disagree on property {:#x}: {:?} vs {:?}", id, got, want);
            }
        }
        it
    }};
}
/// Field values the accessors of a packet report (normalized).
pub fn extract(p: &Packet) -> Pkt {
    let mut o;
    match p {
        Packet::Connect(c) => {
            o = Pkt::new(CONNECT);
            o.flags = c.flags().bits();
            o.keep_alive = c.keep_alive();
            o.client_id = utf8(c.clientid());
            o.props = ps!(c);
            o.username = c.username().map(|s| utf8(s));
            o.password = c.password().map(|b| b.to_vec());
            o.will = c.will().map(|w| {
                let mut w = w.clone();
                wire::Will { props: ps!(w), topic: utf8(w.topic()), payload: w.payload().to_vec() }
            });
        }
        Packet::ConnAck(c) => {
            o = Pkt::new(CONNACK);
            o.flags = c.flags().bits();
            o.reason = connack_val(c.reason_code());
            o.props = ps!(c);
        }
        Packet::Publish(c) => {
            o = Pkt::new(PUBLISH);
            o.flags = c.flags().bits();
            assert_eq!(c.qos() as u8, o.qos(), "qos() and flags() disagree");
            o.topic = utf8(c.topic_name());
            o.id = c.packet_identifier();
            o.payload = c.payload().to_vec();
            o.props = ps!(c);
        }
        Packet::PubAck(c) => {
            o = Pkt::new(PUBACK);
            o.id = Some(c.identifier());
            o.reason = puback_val(c.reason_code());
            o.props = ps!(c);
        }
        Packet::PubRec(c) => {
            o = Pkt::new(PUBREC);
            o.id = Some(c.identifier());
            o.reason = pubrec_val(c.reason_code());
            o.props = ps!(c);
        }
        Packet::PubRel(c) => {
            o = Pkt::new(PUBREL);
            o.id = Some(c.identifier());
            o.reason = pubrel_val(c.reason_code());
            o.props = ps!(c);
        }
        Packet::PubComp(c) => {
            o = Pkt::new(PUBCOMP);
            o.id = Some(c.identifier());
            o.reason = pubcomp_val(c.reason_code());
            o.props = ps!(c);
        }
        Packet::Subscribe(c) => {
            o = Pkt::new(SUBSCRIBE);
            o.id = Some(c.packet_identifier());
            o.subs = c.topics_iter().map(|(t, f)| (utf8(t), f.bits())).collect();
            o.props = ps!(c);
        }
        Packet::SubAck(c) => {
            o = Pkt::new(SUBACK);
            o.id = Some(c.identifier());
            o.codes = c.reason_codes().iter().map(|r| suback_val(*r)).collect();
            o.props = ps!(c);
        }
        Packet::Unsubscribe(c) => {
            o = Pkt::new(UNSUBSCRIBE);
            o.filters = c.topics_iter().map(|t| utf8(t)).collect();
            o.props = ps!(c);
            // no accessor for the identifier: take it from the encoding
            let mut v = vec![];
            p.to_bytes(&mut v);
            if let Head::Ok { at, .. } = head(&v) {
                o.id = Some(u16::from_be_bytes([v[at], v[at + 1]]));
            }
        }
        Packet::UnsubAck(c) => {
            o = Pkt::new(UNSUBACK);
            o.id = Some(c.identifier());
            o.codes = c.reason_codes().iter().map(|r| unsuback_val(*r)).collect();
            o.props = ps!(c);
        }
        Packet::PingReq(_) => o = Pkt::new(PINGREQ),
        Packet::PingRes(_) => o = Pkt::new(PINGRESP),
        Packet::Disconnect(c) => {
            o = Pkt::new(DISCONNECT);
            o.reason = disconnect_val(c.reason_code());
            o.props = ps!(c);
        }
        Packet::Auth(c) => {
            o = Pkt::new(AUTH);
            o.reason = auth_val(c.reason_code());
            o.props = ps!(c);
        }
    }
    o.normalized()
}
pub fn encode_real(p: &Packet) -> Vec<u8> {
    let mut v = vec![];
    p.to_bytes(&mut v);
    v
}
pub fn is_need_more(e: &Perr) -> bool {
    matches!(e, DataParseError::InsufficientBuffer { .. })
}
/// run `f`, turning a panic into its message
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}
