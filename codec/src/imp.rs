//! Access to the implementation: decoding over segmented buffers, the content of its packets as
//! its accessors tell it, and assembling packets with its builders.

use crate::refc::{self, Props, UserProp, D, P, V, W};
use apiformes_packet::auth::Auth;
use apiformes_packet::connack::ConnAck;
use apiformes_packet::connect::{Connect, Will};
use apiformes_packet::disconnect::Disconnect;
use apiformes_packet::error::DataParseError;
use apiformes_packet::packet::Packet;
use apiformes_packet::ping::Ping;
use apiformes_packet::props::{MqttPropValue, Property};
use apiformes_packet::puback::PubAck;
use apiformes_packet::pubcomp::PubComp;
use apiformes_packet::publish::Publish;
use apiformes_packet::pubrec::PubRec;
use apiformes_packet::pubrel::PubRel;
use apiformes_packet::qos::QoS;
use apiformes_packet::reason::*;
use apiformes_packet::suback::SubAck;
use apiformes_packet::subscribe::{Subscribe, SubscriptionOptions};
use apiformes_packet::unsuback::UnsubAck;
use apiformes_packet::unsubscribe::Unsubscribe;
use bytes::{Buf, Bytes};
use std::sync::Arc;

/// A buffer of several segments
pub struct Seg<'a> {
    segs: &'a [&'a [u8]],
    i: usize,
    at: usize,
    left: usize,
}
impl<'a> Seg<'a> {
    pub fn new(segs: &'a [&'a [u8]]) -> Self {
        let mut s = Seg { segs, i: 0, at: 0, left: segs.iter().map(|s| s.len()).sum() };
        s.skip();
        s
    }
    fn skip(&mut self) {
        while self.i < self.segs.len() && self.at == self.segs[self.i].len() {
            self.i += 1;
            self.at = 0;
        }
    }
}
impl Buf for Seg<'_> {
    fn remaining(&self) -> usize {
        self.left
    }
    fn chunk(&self) -> &[u8] {
        match self.segs.get(self.i) {
            Some(s) => &s[self.at..],
            None => &[],
        }
    }
    fn advance(&mut self, mut n: usize) {
        assert!(n <= self.left, "advance beyond the end of the buffer");
        self.left -= n;
        while n > 0 {
            let k = n.min(self.segs[self.i].len() - self.at);
            self.at += k;
            n -= k;
            self.skip();
        }
    }
}

pub struct Out {
    pub res: Result<Packet, DataParseError>,
    pub used: usize,
}
pub fn decode(b: &[u8]) -> Out {
    let mut s = b;
    let res = Packet::from_bytes(&mut s);
    Out { res, used: b.len() - s.len() }
}
pub fn decode_seg(segs: &[&[u8]]) -> Out {
    let mut s = Seg::new(segs);
    let all = s.remaining();
    let res = Packet::from_bytes(&mut s);
    Out { res, used: all - s.remaining() }
}
pub fn is_more(e: &DataParseError) -> bool {
    matches!(e, DataParseError::InsufficientBuffer { .. })
}

pub fn prop(id: u8) -> Property {
    use Property::*;
    match id {
        0x01 => PayloadFormatIndicator,
        0x02 => MessageExpiryInterval,
        0x03 => ContentType,
        0x08 => ResponseTopic,
        0x09 => CorrelationData,
        0x0b => SubscriptionIdentifier,
        0x11 => SessionExpiryInterval,
        0x12 => AssignedClientIdentifier,
        0x13 => ServerKeepAlive,
        0x15 => AuthenticationMethod,
        0x16 => AuthenticationData,
        0x17 => RequestProblemInformation,
        0x18 => WillDelayInterval,
        0x19 => RequestResponseInformation,
        0x1a => ResponseInformation,
        0x1c => ServerReference,
        0x1f => ReasonString,
        0x21 => ReceiveMaximum,
        0x22 => TopicAliasMaximum,
        0x23 => TopicAlias,
        0x24 => MaximumQoS,
        0x25 => RetainAvailable,
        0x26 => UserProperty,
        0x27 => MaximumPacketSize,
        0x28 => WildcardSubscriptionAvailable,
        0x29 => SubscriptionIdentifierAvailable,
        0x2a => SharedSubscriptionAvailable,
        _ => unreachable!(),
    }
}

/// What the accessors of a value say. A value answers to exactly one of them.
pub fn value(v: &MqttPropValue) -> Result<V, String> {
    let mut all = Vec::new();
    if let Some(b) = v.into_bool() {
        all.push(V::Bool(b));
    }
    if let Some(b) = v.into_u8() {
        all.push(V::Byte(b));
    }
    if let Some(b) = v.into_u16() {
        all.push(V::U16(b));
    }
    if let Some(b) = v.into_u32() {
        all.push(V::U32(b));
    }
    if let Some(b) = v.into_str() {
        all.push(V::Str(b.as_bytes().to_vec()));
    }
    if let Some(b) = v.into_data() {
        all.push(V::Bin(b.to_vec()));
    }
    if let Some((a, b)) = v.into_str_pair() {
        all.push(V::Pair(a.as_bytes().to_vec(), b.as_bytes().to_vec()));
    }
    if all.len() != 1 {
        return Err(format!("a property value answers to {} accessors: {:?}", all.len(), all));
    }
    Ok(all.pop().unwrap())
}

fn props<'a>(
    iter: impl Iterator<Item = (&'a Property, &'a MqttPropValue)>,
    get: impl Fn(Property) -> Option<Vec<MqttPropValue>>,
) -> Result<Props, String> {
    let mut out: Props = Vec::new();
    for (k, v) in iter {
        out.push((*k as u32 as u8, value(v)?));
    }
    out.sort_by_key(|p| p.0);
    for id in refc::ALL_PROPS {
        let have: Vec<&V> = out.iter().filter(|p| p.0 == id).map(|p| &p.1).collect();
        match get(prop(id)) {
            None if have.is_empty() => (),
            Some(vs) if !have.is_empty() && vs.len() == have.len() => {
                for (a, b) in vs.iter().zip(&have) {
                    if value(a)? != **b {
                        return Err(format!("get_prop and props_iter differ on {:#x}", id));
                    }
                }
            }
            _ => return Err(format!("get_prop and props_iter differ on {:#x}", id)),
        }
    }
    Ok(out)
}
macro_rules! props {
    ($p:expr) => {
        props($p.props_iter(), |k| $p.get_prop(k).map(|v| v.to_vec()))?
    };
}
fn bytes(s: &Arc<str>) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn qos_n(q: QoS) -> u8 {
    match q {
        QoS::QoS0 => 0,
        QoS::QoS1 => 1,
        QoS::QoS2 => 2,
    }
}
pub fn qos(n: u8) -> QoS {
    match n {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        _ => QoS::QoS2,
    }
}

pub fn will(w: &Will) -> Result<W, String> {
    let p = props!(w);
    Ok(W {
        qos: 0,
        retain: false,
        props: p,
        topic: bytes(w.topic()),
        payload: w.clone().payload().to_vec(),
    })
}

/// The content of a packet
pub fn content(p: &Packet) -> Result<P, String> {
    Ok(match p {
        Packet::Connect(c) => {
            let f = c.flags().bits();
            let will = match c.will() {
                Some(w) => {
                    let mut w = will(w)?;
                    w.qos = (f >> 3) & 3;
                    w.retain = f & 0x20 != 0;
                    Some(w)
                }
                None => None,
            };
            if will.is_some() != (f & 4 != 0) || will.is_none() && f & 0x38 != 0 {
                return Err("the flags and the will of a CONNECT differ".into());
            }
            if c.username().is_some() != (f & 0x80 != 0) || c.password().is_some() != (f & 0x40 != 0) {
                return Err("the flags and the credentials of a CONNECT differ".into());
            }
            P::Connect {
                clean: f & 2 != 0,
                keep: c.keep_alive(),
                props: props!(c),
                id: bytes(c.clientid()),
                will,
                user: c.username().map(bytes),
                pass: c.password().map(|b| b.to_vec()),
            }
        }
        Packet::ConnAck(c) => P::ConnAck {
            present: c.flags().bits() & 1 != 0,
            code: c.reason_code() as u8,
            props: props!(c),
        },
        Packet::Publish(c) => {
            let f = c.flags().bits();
            if qos_n(c.qos()) != (f >> 1) & 3 {
                return Err("the flags and the QoS of a PUBLISH differ".into());
            }
            P::Publish {
                dup: f & 8 != 0,
                qos: qos_n(c.qos()),
                retain: f & 1 != 0,
                topic: bytes(c.topic_name()),
                pid: c.packet_identifier(),
                props: props!(c),
                payload: c.payload().to_vec(),
            }
        }
        Packet::PubAck(c) => {
            P::Ack { ty: 4, id: c.identifier(), code: c.reason_code() as u8, props: props!(c) }
        }
        Packet::PubRec(c) => {
            P::Ack { ty: 5, id: c.identifier(), code: c.reason_code() as u8, props: props!(c) }
        }
        Packet::PubRel(c) => {
            P::Ack { ty: 6, id: c.identifier(), code: c.reason_code() as u8, props: props!(c) }
        }
        Packet::PubComp(c) => {
            P::Ack { ty: 7, id: c.identifier(), code: c.reason_code() as u8, props: props!(c) }
        }
        Packet::Subscribe(c) => P::Subscribe {
            id: c.packet_identifier(),
            props: props!(c),
            topics: c.topics_iter().map(|(t, o)| (bytes(t), o.bits())).collect(),
        },
        Packet::SubAck(c) => P::Codes {
            ty: 9,
            id: c.identifier(),
            props: props!(c),
            codes: c.reason_codes().iter().map(|r| *r as u8).collect(),
        },
        Packet::Unsubscribe(c) => {
            // the identifier has no accessor
            let e = encode(p)?;
            let id = match refc::decode(&e, UserProp::Single) {
                D::Ok(P::Unsubscribe { id, .. }, _) | D::Either(Some(P::Unsubscribe { id, .. }), _, _) => id,
                _ => match refc::fixed_header(&e) {
                    Ok(Some((n, h))) if n >= 2 && e.len() >= h + 2 => e[h] as u16 * 256 + e[h + 1] as u16,
                    _ => return Err("cannot read back an UNSUBSCRIBE".into()),
                },
            };
            P::Unsubscribe { id, props: props!(c), topics: c.topics_iter().map(bytes).collect() }
        }
        Packet::UnsubAck(c) => P::Codes {
            ty: 11,
            id: c.identifier(),
            props: props!(c),
            codes: c.reason_codes().iter().map(|r| *r as u8).collect(),
        },
        Packet::PingReq(_) => P::Ping { ty: 12 },
        Packet::PingRes(_) => P::Ping { ty: 13 },
        Packet::Disconnect(c) => P::Reason { ty: 14, code: c.reason_code() as u8, props: props!(c) },
        Packet::Auth(c) => P::Reason { ty: 15, code: c.reason_code() as u8, props: props!(c) },
    }
    .normal())
}

/// Encodes into a buffer of exactly the announced length
pub fn encode(p: &Packet) -> Result<Vec<u8>, String> {
    let n = p.frame_len();
    let mut v: Vec<u8> = Vec::with_capacity(n);
    p.to_bytes(&mut v);
    if v.len() != n {
        return Err(format!("wrote {} bytes, the reported frame length is {}", v.len(), n));
    }
    Ok(v)
}

// ---------------------------------------------------------------- building

pub fn arc(b: &[u8]) -> Option<Arc<str>> {
    std::str::from_utf8(b).ok().map(Arc::from)
}
pub fn make_value(id: u8, v: &V) -> Result<MqttPropValue, DataParseError> {
    Ok(match v {
        V::Bool(b) => MqttPropValue::new_bool(*b),
        V::Byte(b) => MqttPropValue::new_u8(*b),
        V::U16(b) => MqttPropValue::new_u16(*b),
        V::U32(b) if id == refc::SUBID => MqttPropValue::new_varint(*b)?,
        V::U32(b) => MqttPropValue::new_u32(*b),
        V::Str(s) => MqttPropValue::new_string(arc(s).ok_or(DataParseError::BadMqttUtf8String)?)?,
        V::Bin(s) => MqttPropValue::new_data(&s[..])?,
        V::Pair(a, b) => MqttPropValue::new_string_pair(
            arc(a).ok_or(DataParseError::BadMqttUtf8String)?,
            arc(b).ok_or(DataParseError::BadMqttUtf8String)?,
        )?,
    })
}

pub fn connack_code(c: u8) -> ConnAckReasonCode {
    use ConnAckReasonCode::*;
    match c {
        0 => Success,
        0x80 => UnspecifiedError,
        0x81 => MalformedPacket,
        0x82 => ProtocolError,
        0x83 => ImplementationSpecificError,
        0x84 => UnsupportedProtocolVersion,
        0x85 => ClientIdentifierNotValid,
        0x86 => BadUserNameOrPassword,
        0x87 => NotAuthorized,
        0x88 => ServerUnavailable,
        0x89 => ServerBusy,
        0x8a => Banned,
        0x8c => BadAuthenicationMethod,
        0x90 => TopicNameInvalid,
        0x95 => PacketTooLarge,
        0x97 => QuotaExceeded,
        0x99 => PayloadFormatInvalid,
        0x9a => RetainNotSupported,
        0x9b => QoSNotSupported,
        0x9c => UseAnotherServer,
        0x9d => ServerMoved,
        0x9f => ConnectionRateExceeded,
        _ => unreachable!(),
    }
}
pub fn puback_code(c: u8) -> PubAckReasonCode {
    use PubAckReasonCode::*;
    match c {
        0 => Success,
        0x10 => NoMatchingSubscribers,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x90 => TopicNameInvalid,
        0x91 => PacketIdentifierInUse,
        0x97 => QuotaExceeded,
        0x99 => PayloadFormatInvalid,
        _ => unreachable!(),
    }
}
pub fn pubrel_code(c: u8) -> PubRelReasonCode {
    match c {
        0 => PubRelReasonCode::Success,
        0x92 => PubRelReasonCode::PacketIdentifierNotFound,
        _ => unreachable!(),
    }
}
pub fn suback_code(c: u8) -> SubAckReasonCode {
    use SubAckReasonCode::*;
    match c {
        0 => GrantedQoS0,
        1 => GrantedQoS1,
        2 => GrantedQoS2,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x8f => TopicFilterInvalid,
        0x91 => PacketIdentifierInUse,
        0x97 => QuotaExceeded,
        0x9e => SharedSubscriptionsNotSupported,
        0xa1 => SubscriptionIdentifiersNotSupported,
        0xa2 => WildcardSubscriptionsNotSupported,
        _ => unreachable!(),
    }
}
pub fn unsuback_code(c: u8) -> UnsubAckReasonCode {
    use UnsubAckReasonCode::*;
    match c {
        0 => Success,
        0x11 => NoSubscriptionExisted,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x8f => TopicFilterInvalid,
        0x91 => PacketIdentifierInUse,
        _ => unreachable!(),
    }
}
pub fn disconnect_code(c: u8) -> DisconnectReasonCode {
    use DisconnectReasonCode::*;
    match c {
        0 => NormalDisconnection,
        0x04 => DisconnectWithWillMessage,
        0x80 => UnspecifiedError,
        0x81 => MalformedPacket,
        0x82 => ProtocolError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x89 => ServerBusy,
        0x8b => ServerShuttingDown,
        0x8d => KeepAliveTimeout,
        0x8e => SessionTakenOver,
        0x8f => TopicFilterInvalid,
        0x90 => TopicNameInvalid,
        0x93 => ReceiveMaximumExceeded,
        0x94 => TopicAliasInvalid,
        0x95 => PacketTooLarge,
        0x96 => MessageRateTooHigh,
        0x97 => QuotaExceeded,
        0x98 => AdministrativeAction,
        0x99 => PayloadFormatInvalid,
        0x9a => RetainNotSupported,
        0x9b => QoSNotSupported,
        0x9c => UseAnotherServer,
        0x9d => ServerMoved,
        0x9e => SharedSubscriptionsNotSupported,
        0x9f => ConnectionRateExceeded,
        0xa0 => MaximumConnectTime,
        0xa1 => SubscriptionIdentifiersNotSupported,
        0xa2 => WildcardSubscriptionsNotSupported,
        _ => unreachable!(),
    }
}
pub fn auth_code(c: u8) -> AuthReasonCode {
    match c {
        0 => AuthReasonCode::Success,
        0x18 => AuthReasonCode::ContinueAuthentication,
        0x19 => AuthReasonCode::ReAuthenticate,
        _ => unreachable!(),
    }
}

/// A packet under construction
#[derive(Clone)]
pub enum B {
    Will(Will),
    Connect(Connect),
    ConnAck(ConnAck),
    Publish(Publish),
    PubAck(PubAck),
    PubRec(PubRec),
    PubRel(PubRel),
    PubComp(PubComp),
    Subscribe(Subscribe),
    SubAck(SubAck),
    Unsubscribe(Unsubscribe),
    UnsubAck(UnsubAck),
    Disconnect(Disconnect),
    Auth(Auth),
}
impl B {
    /// The smallest complete packet of an owner of properties
    pub fn new(owner: u8) -> B {
        match owner {
            0 => B::Will(Will::new(Arc::from("w"), &b"p"[..]).unwrap()),
            1 => B::Connect(Connect::new(Arc::from("c")).unwrap()),
            2 => B::ConnAck(ConnAck::new()),
            3 => B::Publish(Publish::new(Arc::from("t"), Bytes::from_static(b"p")).unwrap()),
            4 => B::PubAck(PubAck::new(7)),
            5 => B::PubRec(PubRec::new(7)),
            6 => B::PubRel(PubRel::new(7)),
            7 => B::PubComp(PubComp::new(7)),
            8 => {
                let mut s = Subscribe::new(7);
                s.add_topic(Arc::from("t"), SubscriptionOptions::empty()).unwrap();
                B::Subscribe(s)
            }
            9 => {
                let mut s = SubAck::new(7);
                s.add_reason_code(SubAckReasonCode::GrantedQoS0);
                B::SubAck(s)
            }
            10 => {
                let mut s = Unsubscribe::new(7);
                s.add_topic(Arc::from("t")).unwrap();
                B::Unsubscribe(s)
            }
            11 => {
                let mut s = UnsubAck::new(7);
                s.add_reason_code(UnsubAckReasonCode::Success);
                B::UnsubAck(s)
            }
            14 => B::Disconnect(Disconnect::new(DisconnectReasonCode::NormalDisconnection)),
            15 => B::Auth(Auth::new(AuthReasonCode::Success)),
            _ => unreachable!(),
        }
    }
    pub fn add_prop(&mut self, k: Property, v: MqttPropValue) -> Result<(), DataParseError> {
        match self {
            B::Will(p) => p.add_prop(k, v),
            B::Connect(p) => p.add_prop(k, v),
            B::ConnAck(p) => p.add_prop(k, v),
            B::Publish(p) => p.add_prop(k, v),
            B::PubAck(p) => p.add_prop(k, v),
            B::PubRec(p) => p.add_prop(k, v),
            B::PubRel(p) => p.add_prop(k, v),
            B::PubComp(p) => p.add_prop(k, v),
            B::Subscribe(p) => p.add_prop(k, v),
            B::SubAck(p) => p.add_prop(k, v),
            B::Unsubscribe(p) => p.add_prop(k, v),
            B::UnsubAck(p) => p.add_prop(k, v),
            B::Disconnect(p) => p.add_prop(k, v),
            B::Auth(p) => p.add_prop(k, v),
        }
    }
    pub fn build(&self) -> Packet {
        match self.clone() {
            B::Will(w) => {
                let mut c = Connect::new(Arc::from("c")).unwrap();
                c.set_will(w);
                c.build()
            }
            B::Connect(p) => p.build(),
            B::ConnAck(p) => p.build(),
            B::Publish(p) => p.build(),
            B::PubAck(p) => p.build(),
            B::PubRec(p) => p.build(),
            B::PubRel(p) => p.build(),
            B::PubComp(p) => p.build(),
            B::Subscribe(p) => p.build(),
            B::SubAck(p) => p.build(),
            B::Unsubscribe(p) => p.build(),
            B::UnsubAck(p) => p.build(),
            B::Disconnect(p) => p.build(),
            B::Auth(p) => p.build(),
        }
    }
    /// The properties, as the accessors tell
    pub fn props(&self) -> Result<Props, String> {
        Ok(match content(&self.build())? {
            P::Connect { will: Some(w), .. } if matches!(self, B::Will(_)) => w.props,
            P::Connect { props, .. }
            | P::ConnAck { props, .. }
            | P::Publish { props, .. }
            | P::Ack { props, .. }
            | P::Subscribe { props, .. }
            | P::Codes { props, .. }
            | P::Unsubscribe { props, .. }
            | P::Reason { props, .. } => props,
            P::Ping { .. } => Vec::new(),
        })
    }
}

/// Assembles a packet of this content; the error says which call was refused
pub fn build(p: &P) -> Result<Packet, String> {
    fn e<T>(what: &'static str) -> impl Fn(T) -> String {
        move |_| format!("{} was refused", what)
    }
    fn s(b: &[u8]) -> Arc<str> {
        arc(b).expect("content is UTF-8")
    }
    macro_rules! add {
        ($b:expr, $props:expr) => {
            for (k, v) in $props {
                let v = make_value(*k, v).map_err(|_| format!("the value of property {:#x} was refused", k))?;
                $b.add_prop(prop(*k), v).map_err(|_| format!("property {:#x} was refused", k))?;
            }
        };
    }
    Ok(match p {
        P::Connect { clean, keep, props, id, will, user, pass } => {
            let mut c = Connect::new(s(id)).map_err(e("the client identifier"))?;
            if *clean {
                c.set_clean_start();
            }
            c.set_keep_alive(*keep);
            add!(c, props);
            if let Some(w) = will {
                let mut x = Will::new(s(&w.topic), &w.payload[..]).map_err(e("the will"))?;
                add!(x, &w.props);
                c.set_will(x);
                c.set_will_qos(qos(w.qos)).map_err(e("the QoS of the will"))?;
                if w.retain {
                    c.set_will_retain().map_err(e("the retain flag of the will"))?;
                }
            }
            if let Some(u) = user {
                c.set_username(s(u)).map_err(e("the user name"))?;
            }
            if let Some(u) = pass {
                c.set_password(&u[..]).map_err(e("the password"))?;
            }
            c.build()
        }
        P::ConnAck { present, code, props } => {
            let mut c = ConnAck::new();
            if *present {
                c.set_session_present();
            }
            c.set_reason_code(connack_code(*code));
            add!(c, props);
            c.build()
        }
        P::Publish { dup, qos: q, retain, topic, pid, props, payload } => {
            let mut c =
                Publish::new(s(topic), Bytes::copy_from_slice(payload)).map_err(e("the topic"))?;
            c.set_qos(qos(*q));
            if let Some(i) = pid {
                c.set_packet_identifier(*i).map_err(e("the packet identifier"))?;
            }
            if *dup {
                c.set_dup();
            }
            if *retain {
                c.set_retain();
            }
            add!(c, props);
            c.build()
        }
        P::Ack { ty: 4, id, code, props } => {
            let mut c = PubAck::new(*id);
            c.set_reason_code(puback_code(*code));
            add!(c, props);
            c.build()
        }
        P::Ack { ty: 5, id, code, props } => {
            let mut c = PubRec::new(*id);
            c.set_reason_code(puback_code(*code));
            add!(c, props);
            c.build()
        }
        P::Ack { ty: 6, id, code, props } => {
            let mut c = PubRel::new(*id);
            c.set_reason_code(pubrel_code(*code));
            add!(c, props);
            c.build()
        }
        P::Ack { id, code, props, .. } => {
            let mut c = PubComp::new(*id);
            c.set_reason_code(pubrel_code(*code));
            add!(c, props);
            c.build()
        }
        P::Subscribe { id, props, topics } => {
            let mut c = Subscribe::new(*id);
            for (t, o) in topics {
                c.add_topic(s(t), SubscriptionOptions::from_bits(*o).unwrap()).map_err(e("a filter"))?;
            }
            add!(c, props);
            c.build()
        }
        P::Codes { ty: 9, id, props, codes } => {
            let mut c = SubAck::new(*id);
            for r in codes {
                c.add_reason_code(suback_code(*r));
            }
            add!(c, props);
            c.build()
        }
        P::Codes { id, props, codes, .. } => {
            let mut c = UnsubAck::new(*id);
            for r in codes {
                c.add_reason_code(unsuback_code(*r));
            }
            add!(c, props);
            c.build()
        }
        P::Unsubscribe { id, props, topics } => {
            let mut c = Unsubscribe::new(*id);
            for t in topics {
                c.add_topic(s(t)).map_err(e("a filter"))?;
            }
            add!(c, props);
            c.build()
        }
        P::Ping { ty: 12 } => Ping::new().build_req(),
        P::Ping { .. } => Ping::new().build_res(),
        P::Reason { ty: 14, code, props } => {
            let mut c = Disconnect::new(disconnect_code(*code));
            add!(c, props);
            c.build()
        }
        P::Reason { code, props, .. } => {
            let mut c = Auth::new(auth_code(*code));
            add!(c, props);
            c.build()
        }
    })
}
