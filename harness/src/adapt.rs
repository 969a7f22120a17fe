//! Crate packets <-> reference model, and uniform calls into the crate.

use crate::engine::{call, fail, Fail};
use crate::model::*;
use bytes::{Bytes, BytesMut};
use mqttbytes::{check, v4, v5, Error, FixedHeader, Protocol, QoS};

pub fn qos_of(n: u8) -> QoS {
    match n {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}
pub fn qos_num(q: QoS) -> u8 {
    match q {
        QoS::AtMostOnce => 0,
        QoS::AtLeastOnce => 1,
        QoS::ExactlyOnce => 2,
    }
}

macro_rules! code_map {
    ($to:ident, $from:ident, $ty:ty, { $($n:literal => $v:ident),* $(,)? }) => {
        pub fn $to(n: u8) -> $ty {
            match n { $($n => <$ty>::$v,)* _ => panic!("no such code {n:#x}") }
        }
        #[allow(unreachable_patterns)]
        pub fn $from(c: &$ty) -> u8 {
            match c { $(<$ty>::$v => $n,)* _ => 0xEE }
        }
    };
}

code_map!(connack4, connack4n, v4::ConnectReturnCode, {
    0 => Success, 1 => RefusedProtocolVersion, 2 => BadClientId, 3 => ServiceUnavailable,
    4 => BadUserNamePassword, 5 => NotAuthorized });
code_map!(connack5, connack5n, v5::ConnectReturnCode, {
    0 => Success, 0x80 => UnspecifiedError, 0x81 => MalformedPacket, 0x82 => ProtocolError,
    0x83 => ImplementationSpecificError, 0x84 => UnsupportedProtocolVersion, 0x85 => ClientIdentifierNotValid,
    0x86 => BadUserNamePassword, 0x87 => NotAuthorized, 0x88 => ServerUnavailable, 0x89 => ServerBusy,
    0x8A => Banned, 0x8C => BadAuthenticationMethod, 0x90 => TopicNameInvalid, 0x95 => PacketTooLarge,
    0x97 => QuotaExceeded, 0x99 => PayloadFormatInvalid, 0x9A => RetainNotSupported, 0x9B => QoSNotSupported,
    0x9C => UseAnotherServer, 0x9D => ServerMoved, 0x9F => ConnectionRateExceeded });
code_map!(puback5, puback5n, v5::PubAckReason, {
    0 => Success, 0x10 => NoMatchingSubscribers, 0x80 => UnspecifiedError, 0x83 => ImplementationSpecificError,
    0x87 => NotAuthorized, 0x90 => TopicNameInvalid, 0x91 => PacketIdentifierInUse, 0x97 => QuotaExceeded,
    0x99 => PayloadFormatInvalid });
code_map!(pubrec5, pubrec5n, v5::PubRecReason, {
    0 => Success, 0x10 => NoMatchingSubscribers, 0x80 => UnspecifiedError, 0x83 => ImplementationSpecificError,
    0x87 => NotAuthorized, 0x90 => TopicNameInvalid, 0x91 => PacketIdentifierInUse, 0x97 => QuotaExceeded,
    0x99 => PayloadFormatInvalid });
code_map!(pubrel5, pubrel5n, v5::PubRelReason, { 0 => Success, 0x92 => PacketIdentifierNotFound });
code_map!(pubcomp5, pubcomp5n, v5::PubCompReason, { 0 => Success, 0x92 => PacketIdentifierNotFound });
code_map!(suback5, suback5n, v5::SubscribeReasonCode, {
    0 => QoS0, 1 => QoS1, 2 => QoS2, 0x80 => Unspecified, 0x83 => ImplementationSpecific, 0x87 => NotAuthorized,
    0x8F => TopicFilterInvalid, 0x91 => PkidInUse, 0x97 => QuotaExceeded,
    0x9E => SharedSubscriptionsNotSupported, 0xA1 => SubscriptionIdNotSupported,
    0xA2 => WildcardSubscriptionsNotSupported });
code_map!(unsuback5, unsuback5n, v5::UnsubAckReason, {
    0 => Success, 0x11 => NoSubscriptionExisted, 0x80 => UnspecifiedError, 0x83 => ImplementationSpecificError,
    0x87 => NotAuthorized, 0x8F => TopicFilterInvalid, 0x91 => PacketIdentifierInUse });
code_map!(disconnect5, disconnect5n, v5::DisconnectReasonCode, {
    0 => NormalDisconnection, 0x04 => DisconnectWithWillMessage, 0x80 => UnspecifiedError,
    0x81 => MalformedPacket, 0x82 => ProtocolError, 0x83 => ImplementationSpecificError, 0x87 => NotAuthorized,
    0x89 => ServerBusy, 0x8B => ServerShuttingDown, 0x8D => KeepAliveTimeout, 0x8E => SessionTakenOver,
    0x8F => TopicFilterInvalid, 0x90 => TopicNameInvalid, 0x93 => ReceiveMaximumExceeded,
    0x94 => TopicAliasInvalid, 0x95 => PacketTooLarge, 0x96 => MessageRateTooHigh, 0x97 => QuotaExceeded,
    0x98 => AdministrativeAction, 0x99 => PayloadFormatInvalid, 0x9A => RetainNotSupported,
    0x9B => QoSNotSupported, 0x9C => UseAnotherServer, 0x9D => ServerMoved,
    0x9E => SharedSubscriptionNotSupported, 0x9F => ConnectionRateExceeded, 0xA0 => MaximumConnectTime,
    0xA1 => SubscriptionIdentifiersNotSupported, 0xA2 => WildcardSubscriptionsNotSupported });

pub fn suback4(n: u8) -> v4::SubscribeReasonCode {
    match n {
        0x80 => v4::SubscribeReasonCode::Failure,
        n => v4::SubscribeReasonCode::Success(qos_of(n)),
    }
}
pub fn suback4n(c: &v4::SubscribeReasonCode) -> u8 {
    match c {
        v4::SubscribeReasonCode::Failure => 0x80,
        v4::SubscribeReasonCode::Success(q) => qos_num(*q),
    }
}

// ---------------------------------------------------------------- properties

/// The same bytes, some of them as a part of something larger, as a program that received them would have them.
pub fn shared(v: &[u8]) -> Bytes {
    let n = v.len();
    match v.iter().fold(n, |a, b| a.wrapping_mul(31).wrapping_add(*b as usize)) % 4 {
        0 if n < 4096 => {
            let (before, behind) = (n % 9, n % 5);
            let mut all = vec![0xAA; before];
            all.reserve_exact(n + behind);
            all.extend_from_slice(v);
            all.resize(before + n + behind, 0x55);
            Bytes::from(all).slice(before..before + n)
        }
        _ => Bytes::from(v.to_vec()),
    }
}

fn find(p: &Props, id: u8) -> Option<&PVal> {
    p.iter().find(|x| x.0 == id).map(|x| &x.1)
}

macro_rules! get {
    (b, $p:expr, $id:expr) => { find($p, $id).map(|v| match v { PVal::U8(x) => *x, _ => panic!() }) };
    (h, $p:expr, $id:expr) => { find($p, $id).map(|v| match v { PVal::U16(x) => *x, _ => panic!() }) };
    (w, $p:expr, $id:expr) => { find($p, $id).map(|v| match v { PVal::U32(x) => *x, _ => panic!() }) };
    (v, $p:expr, $id:expr) => { find($p, $id).map(|v| match v { PVal::Var(x) => *x as usize, _ => panic!() }) };
    (s, $p:expr, $id:expr) => { find($p, $id).map(|v| match v { PVal::Str(x) => x.clone(), _ => panic!() }) };
    (d, $p:expr, $id:expr) => {
        find($p, $id).map(|v| match v { PVal::Bin(x) => shared(x), _ => panic!() })
    };
    (p, $p:expr, $id:expr) => {
        $p.iter().filter(|x| x.0 == $id).map(|x| match &x.1 {
            PVal::Pair(a, b) => (a.clone(), b.clone()), _ => panic!() }).collect()
    };
    (l, $p:expr, $id:expr) => {
        $p.iter().filter(|x| x.0 == $id).map(|x| match &x.1 { PVal::Var(x) => *x as usize, _ => panic!() }).collect()
    };
}
macro_rules! put {
    (b, $o:expr, $id:expr, $f:expr) => { if let Some(x) = $f { $o.push(($id, PVal::U8(*x))) } };
    (h, $o:expr, $id:expr, $f:expr) => { if let Some(x) = $f { $o.push(($id, PVal::U16(*x))) } };
    (w, $o:expr, $id:expr, $f:expr) => { if let Some(x) = $f { $o.push(($id, PVal::U32(*x))) } };
    (v, $o:expr, $id:expr, $f:expr) => { if let Some(x) = $f { $o.push(($id, PVal::Var(*x as u32))) } };
    (s, $o:expr, $id:expr, $f:expr) => { if let Some(x) = $f { $o.push(($id, PVal::Str(x.clone()))) } };
    (d, $o:expr, $id:expr, $f:expr) => { if let Some(x) = $f { $o.push(($id, PVal::Bin(x.to_vec()))) } };
    (p, $o:expr, $id:expr, $f:expr) => { for (a, b) in $f { $o.push(($id, PVal::Pair(a.clone(), b.clone()))) } };
    (l, $o:expr, $id:expr, $f:expr) => { for x in $f { $o.push(($id, PVal::Var(*x as u32))) } };
}
macro_rules! props {
    ($to:ident, $from:ident, $ty:ident, { $($id:literal $k:ident $f:ident),* $(,)? }) => {
        pub fn $to(p: &Props, empty_some: bool) -> Option<v5::$ty> {
            if p.is_empty() && !empty_some { return None; }
            Some(v5::$ty { $($f: get!($k, p, $id)),* })
        }
        pub fn $from(p: &Option<v5::$ty>) -> Props {
            let mut o: Props = Vec::new();
            if let Some(p) = p { let v5::$ty { $($f),* } = p; $(put!($k, o, $id, $f);)* }
            o.sort_by_key(|x| x.0);
            o
        }
    };
}
props!(connect_p, connect_pm, ConnectProperties, {
    17 w session_expiry_interval, 33 h receive_maximum, 39 w max_packet_size, 34 h topic_alias_max,
    25 b request_response_info, 23 b request_problem_info, 38 p user_properties, 21 s authentication_method,
    22 d authentication_data });
props!(will_p, will_pm, WillProperties, {
    24 w delay_interval, 1 b payload_format_indicator, 2 w message_expiry_interval, 3 s content_type,
    8 s response_topic, 9 d correlation_data, 38 p user_properties });
props!(connack_p, connack_pm, ConnAckProperties, {
    17 w session_expiry_interval, 33 h receive_max, 36 b max_qos, 37 b retain_available, 39 w max_packet_size,
    18 s assigned_client_identifier, 34 h topic_alias_max, 31 s reason_string, 38 p user_properties,
    40 b wildcard_subscription_available, 41 b subscription_identifiers_available,
    42 b shared_subscription_available, 19 h server_keep_alive, 26 s response_information,
    28 s server_reference, 21 s authentication_method, 22 d authentication_data });
props!(publish_p, publish_pm, PublishProperties, {
    1 b payload_format_indicator, 2 w message_expiry_interval, 35 h topic_alias, 8 s response_topic,
    9 d correlation_data, 38 p user_properties, 11 l subscription_identifiers, 3 s content_type });
props!(puback_p, puback_pm, PubAckProperties, { 31 s reason_string, 38 p user_properties });
props!(pubrec_p, pubrec_pm, PubRecProperties, { 31 s reason_string, 38 p user_properties });
props!(pubrel_p, pubrel_pm, PubRelProperties, { 31 s reason_string, 38 p user_properties });
props!(pubcomp_p, pubcomp_pm, PubCompProperties, { 31 s reason_string, 38 p user_properties });
props!(subscribe_p, subscribe_pm, SubscribeProperties, { 11 v id, 38 p user_properties });
props!(suback_p, suback_pm, SubAckProperties, { 31 s reason_string, 38 p user_properties });
props!(unsubscribe_p, unsubscribe_pm, UnsubscribeProperties, { 38 p user_properties });
props!(unsuback_p, unsuback_pm, UnsubAckProperties, { 31 s reason_string, 38 p user_properties });
props!(disconnect_p, disconnect_pm, DisconnectProperties, {
    17 w session_expiry_interval, 31 s reason_string, 38 p user_properties, 28 s server_reference });

// ---------------------------------------------------------------- packets

/// A packet of either version, as the crate represents it.
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    P4(v4::Packet),
    P5(v5::Packet),
}

fn proto(level: u8) -> Protocol {
    if level == 5 {
        Protocol::V5
    } else {
        Protocol::V4
    }
}
fn level(p: Protocol) -> u8 {
    match p {
        Protocol::V4 => 4,
        Protocol::V5 => 5,
    }
}

pub fn to4(m: &M) -> v4::Packet {
    use v4::Packet as P;
    match m {
        M::Connect { level, keep_alive, client_id, clean, will, user, pass, .. } => P::Connect(v4::Connect {
            protocol: proto(*level),
            keep_alive: *keep_alive,
            client_id: client_id.clone(),
            clean_session: *clean,
            last_will: will.as_ref().map(|w| v4::LastWill {
                topic: w.topic.clone(),
                message: shared(&w.msg),
                qos: qos_of(w.qos),
                retain: w.retain,
            }),
            login: if user.is_none() && pass.is_none() {
                None
            } else {
                Some(v4::Login {
                    username: user.clone().unwrap_or_default(),
                    password: pass.clone().unwrap_or_default(),
                })
            },
        }),
        M::ConnAck { sp, code, .. } => P::ConnAck(v4::ConnAck { session_present: *sp, code: connack4(*code) }),
        M::Publish { dup, qos, retain, topic, pkid, payload, .. } => P::Publish(v4::Publish {
            dup: *dup,
            qos: qos_of(*qos),
            retain: *retain,
            topic: topic.clone(),
            pkid: *pkid,
            payload: shared(payload),
        }),
        M::Ack { ty: PUBACK, pkid, .. } => P::PubAck(v4::PubAck { pkid: *pkid }),
        M::Ack { ty: PUBREC, pkid, .. } => P::PubRec(v4::PubRec { pkid: *pkid }),
        M::Ack { ty: PUBREL, pkid, .. } => P::PubRel(v4::PubRel { pkid: *pkid }),
        M::Ack { pkid, .. } => P::PubComp(v4::PubComp { pkid: *pkid }),
        M::Subscribe { pkid, filters, .. } => P::Subscribe(v4::Subscribe {
            pkid: *pkid,
            filters: filters
                .iter()
                .map(|(f, o)| v4::SubscribeFilter { path: f.clone(), qos: qos_of(o & 3) })
                .collect(),
        }),
        M::SubAck { pkid, codes, .. } => {
            P::SubAck(v4::SubAck { pkid: *pkid, return_codes: codes.iter().map(|c| suback4(*c)).collect() })
        }
        M::Unsubscribe { pkid, filters, .. } => {
            P::Unsubscribe(v4::Unsubscribe { pkid: *pkid, topics: filters.clone() })
        }
        M::UnsubAck { pkid, .. } => P::UnsubAck(v4::UnsubAck { pkid: *pkid }),
        M::PingReq => P::PingReq,
        M::PingResp => P::PingResp,
        M::Disconnect { .. } => P::Disconnect,
    }
}

pub fn from4(p: &v4::Packet) -> M {
    use v4::Packet as P;
    let props = vec![];
    match p {
        P::Connect(c) => M::Connect {
            level: level(c.protocol),
            keep_alive: c.keep_alive,
            client_id: c.client_id.clone(),
            clean: c.clean_session,
            will: c.last_will.as_ref().map(|w| Will {
                topic: w.topic.clone(),
                msg: w.message.to_vec(),
                qos: qos_num(w.qos),
                retain: w.retain,
                props: vec![],
            }),
            user: c.login.as_ref().map(|l| l.username.clone()),
            pass: c.login.as_ref().map(|l| l.password.clone()),
            props,
        },
        P::ConnAck(c) => M::ConnAck { sp: c.session_present, code: connack4n(&c.code), props },
        P::Publish(p) => M::Publish {
            dup: p.dup,
            qos: qos_num(p.qos),
            retain: p.retain,
            topic: p.topic.clone(),
            pkid: p.pkid,
            props,
            payload: p.payload.to_vec(),
        },
        P::PubAck(a) => M::Ack { ty: PUBACK, pkid: a.pkid, reason: 0, props },
        P::PubRec(a) => M::Ack { ty: PUBREC, pkid: a.pkid, reason: 0, props },
        P::PubRel(a) => M::Ack { ty: PUBREL, pkid: a.pkid, reason: 0, props },
        P::PubComp(a) => M::Ack { ty: PUBCOMP, pkid: a.pkid, reason: 0, props },
        P::Subscribe(s) => M::Subscribe {
            pkid: s.pkid,
            props,
            filters: s.filters.iter().map(|f| (f.path.clone(), qos_num(f.qos))).collect(),
        },
        P::SubAck(s) => {
            M::SubAck { pkid: s.pkid, props, codes: s.return_codes.iter().map(suback4n).collect() }
        }
        P::Unsubscribe(s) => M::Unsubscribe { pkid: s.pkid, props, filters: s.topics.clone() },
        P::UnsubAck(s) => M::UnsubAck { pkid: s.pkid, props, codes: vec![] },
        P::PingReq => M::PingReq,
        P::PingResp => M::PingResp,
        P::Disconnect => M::Disconnect { reason: 0, props },
    }
}

pub fn filter5(f: &str, o: u8) -> v5::SubscribeFilter {
    v5::SubscribeFilter {
        path: f.to_string(),
        qos: qos_of(o & 3),
        nolocal: o & 4 != 0,
        preserve_retain: o & 8 != 0,
        retain_forward_rule: match o >> 4 & 3 {
            0 => v5::RetainForwardRule::OnEverySubscribe,
            1 => v5::RetainForwardRule::OnNewSubscribe,
            _ => v5::RetainForwardRule::Never,
        },
    }
}
pub fn opts5(f: &v5::SubscribeFilter) -> u8 {
    qos_num(f.qos)
        | (f.nolocal as u8) << 2
        | (f.preserve_retain as u8) << 3
        | match f.retain_forward_rule {
            v5::RetainForwardRule::OnEverySubscribe => 0,
            v5::RetainForwardRule::OnNewSubscribe => 1 << 4,
            v5::RetainForwardRule::Never => 2 << 4,
        }
}

/// `es`: an empty property set becomes Some(empty) rather than None
pub fn to5(m: &M, es: bool) -> v5::Packet {
    use v5::Packet as P;
    match m {
        M::Connect { level, keep_alive, client_id, clean, will, user, pass, props } => P::Connect(v5::Connect {
            protocol: proto(*level),
            keep_alive: *keep_alive,
            client_id: client_id.clone(),
            clean_session: *clean,
            last_will: will.as_ref().map(|w| v5::LastWill {
                topic: w.topic.clone(),
                message: shared(&w.msg),
                qos: qos_of(w.qos),
                retain: w.retain,
                properties: will_p(&w.props, es && *level == 5),
            }),
            login: if user.is_none() && pass.is_none() {
                None
            } else {
                Some(v5::Login {
                    username: user.clone().unwrap_or_default(),
                    password: pass.clone().unwrap_or_default(),
                })
            },
            properties: connect_p(props, es && *level == 5),
        }),
        M::ConnAck { sp, code, props } => P::ConnAck(v5::ConnAck {
            session_present: *sp,
            code: connack5(*code),
            properties: connack_p(props, es),
        }),
        M::Publish { dup, qos, retain, topic, pkid, payload, props } => P::Publish(v5::Publish {
            dup: *dup,
            qos: qos_of(*qos),
            retain: *retain,
            topic: topic.clone(),
            pkid: *pkid,
            properties: publish_p(props, es),
            payload: shared(payload),
        }),
        M::Ack { ty: PUBACK, pkid, reason, props } => {
            P::PubAck(v5::PubAck { pkid: *pkid, reason: puback5(*reason), properties: puback_p(props, es) })
        }
        M::Ack { ty: PUBREC, pkid, reason, props } => {
            P::PubRec(v5::PubRec { pkid: *pkid, reason: pubrec5(*reason), properties: pubrec_p(props, es) })
        }
        M::Ack { ty: PUBREL, pkid, reason, props } => {
            P::PubRel(v5::PubRel { pkid: *pkid, reason: pubrel5(*reason), properties: pubrel_p(props, es) })
        }
        M::Ack { pkid, reason, props, .. } => {
            P::PubComp(v5::PubComp { pkid: *pkid, reason: pubcomp5(*reason), properties: pubcomp_p(props, es) })
        }
        M::Subscribe { pkid, filters, props } => P::Subscribe(v5::Subscribe {
            pkid: *pkid,
            filters: filters.iter().map(|(f, o)| filter5(f, *o)).collect(),
            properties: subscribe_p(props, es),
        }),
        M::SubAck { pkid, codes, props } => P::SubAck(v5::SubAck {
            pkid: *pkid,
            return_codes: codes.iter().map(|c| suback5(*c)).collect(),
            properties: suback_p(props, es),
        }),
        M::Unsubscribe { pkid, filters, props } => P::Unsubscribe(v5::Unsubscribe {
            pkid: *pkid,
            filters: filters.clone(),
            properties: unsubscribe_p(props, es),
        }),
        M::UnsubAck { pkid, codes, props } => P::UnsubAck(v5::UnsubAck {
            pkid: *pkid,
            reasons: codes.iter().map(|c| unsuback5(*c)).collect(),
            properties: unsuback_p(props, es),
        }),
        M::PingReq => P::PingReq,
        M::PingResp => P::PingResp,
        M::Disconnect { reason, props } => P::Disconnect(v5::Disconnect {
            reason_code: disconnect5(*reason),
            properties: disconnect_p(props, es),
        }),
    }
}

pub fn from5(p: &v5::Packet) -> M {
    use v5::Packet as P;
    match p {
        P::Connect(c) => M::Connect {
            level: level(c.protocol),
            keep_alive: c.keep_alive,
            client_id: c.client_id.clone(),
            clean: c.clean_session,
            will: c.last_will.as_ref().map(|w| Will {
                topic: w.topic.clone(),
                msg: w.message.to_vec(),
                qos: qos_num(w.qos),
                retain: w.retain,
                props: will_pm(&w.properties),
            }),
            user: c.login.as_ref().map(|l| l.username.clone()),
            pass: c.login.as_ref().map(|l| l.password.clone()),
            props: connect_pm(&c.properties),
        },
        P::ConnAck(c) => {
            M::ConnAck { sp: c.session_present, code: connack5n(&c.code), props: connack_pm(&c.properties) }
        }
        P::Publish(p) => M::Publish {
            dup: p.dup,
            qos: qos_num(p.qos),
            retain: p.retain,
            topic: p.topic.clone(),
            pkid: p.pkid,
            props: publish_pm(&p.properties),
            payload: p.payload.to_vec(),
        },
        P::PubAck(a) => {
            M::Ack { ty: PUBACK, pkid: a.pkid, reason: puback5n(&a.reason), props: puback_pm(&a.properties) }
        }
        P::PubRec(a) => {
            M::Ack { ty: PUBREC, pkid: a.pkid, reason: pubrec5n(&a.reason), props: pubrec_pm(&a.properties) }
        }
        P::PubRel(a) => {
            M::Ack { ty: PUBREL, pkid: a.pkid, reason: pubrel5n(&a.reason), props: pubrel_pm(&a.properties) }
        }
        P::PubComp(a) => {
            M::Ack { ty: PUBCOMP, pkid: a.pkid, reason: pubcomp5n(&a.reason), props: pubcomp_pm(&a.properties) }
        }
        P::Subscribe(s) => M::Subscribe {
            pkid: s.pkid,
            props: subscribe_pm(&s.properties),
            filters: s.filters.iter().map(|f| (f.path.clone(), opts5(f))).collect(),
        },
        P::SubAck(s) => M::SubAck {
            pkid: s.pkid,
            props: suback_pm(&s.properties),
            codes: s.return_codes.iter().map(suback5n).collect(),
        },
        P::Unsubscribe(s) => {
            M::Unsubscribe { pkid: s.pkid, props: unsubscribe_pm(&s.properties), filters: s.filters.clone() }
        }
        P::UnsubAck(s) => M::UnsubAck {
            pkid: s.pkid,
            props: unsuback_pm(&s.properties),
            codes: s.reasons.iter().map(unsuback5n).collect(),
        },
        P::PingReq => M::PingReq,
        P::PingResp => M::PingResp,
        P::Disconnect(d) => {
            M::Disconnect { reason: disconnect5n(&d.reason_code), props: disconnect_pm(&d.properties) }
        }
    }
}

pub fn to_crate(m: &M, ver: Ver, es: bool) -> P {
    match ver {
        V4 => P::P4(to4(m)),
        V5 => P::P5(to5(m, es)),
    }
}

impl P {
    pub fn model(&self) -> M {
        match self {
            P::P4(p) => from4(p).canon(V4),
            P::P5(p) => from5(p).canon(V5),
        }
    }

    /// The packet's own `write`, unguarded.
    pub fn write_raw(&self, b: &mut BytesMut) -> Result<usize, Error> {
        match self {
            P::P4(p) => match p {
                v4::Packet::Connect(x) => x.write(b),
                v4::Packet::ConnAck(x) => x.write(b),
                v4::Packet::Publish(x) => x.write(b),
                v4::Packet::PubAck(x) => x.write(b),
                v4::Packet::PubRec(x) => x.write(b),
                v4::Packet::PubRel(x) => x.write(b),
                v4::Packet::PubComp(x) => x.write(b),
                v4::Packet::Subscribe(x) => x.write(b),
                v4::Packet::SubAck(x) => x.write(b),
                v4::Packet::Unsubscribe(x) => x.write(b),
                v4::Packet::UnsubAck(x) => x.write(b),
                v4::Packet::PingReq => v4::PingReq.write(b),
                v4::Packet::PingResp => v4::PingResp.write(b),
                v4::Packet::Disconnect => v4::Disconnect.write(b),
            },
            P::P5(p) => match p {
                v5::Packet::Connect(x) => x.write(b),
                v5::Packet::ConnAck(x) => x.write(b),
                v5::Packet::Publish(x) => x.write(b),
                v5::Packet::PubAck(x) => x.write(b),
                v5::Packet::PubRec(x) => x.write(b),
                v5::Packet::PubRel(x) => x.write(b),
                v5::Packet::PubComp(x) => x.write(b),
                v5::Packet::Subscribe(x) => x.write(b),
                v5::Packet::SubAck(x) => x.write(b),
                v5::Packet::Unsubscribe(x) => x.write(b),
                v5::Packet::UnsubAck(x) => x.write(b),
                v5::Packet::PingReq => v5::PingReq.write(b),
                v5::Packet::PingResp => v5::PingResp.write(b),
                v5::Packet::Disconnect(x) => x.write(b),
            },
        }
    }

    pub fn write(&self, b: &mut BytesMut) -> Result<Result<usize, Error>, Fail> {
        call("write", || self.write_raw(b))
    }

    /// Bytes of a write that has to succeed.
    pub fn bytes(&self) -> Result<Vec<u8>, Fail> {
        let mut b = BytesMut::new();
        match self.write(&mut b)? {
            Ok(_) => Ok(b.to_vec()),
            Err(e) => fail(format!("write refused an encodable packet: {e:?}")),
        }
    }

    /// The packet's length where it is public.
    pub fn public_len(&self) -> Option<usize> {
        match self {
            P::P4(p) => match p {
                v4::Packet::Connect(x) => Some(x.len()),
                v4::Packet::Publish(x) => Some(x.len()),
                v4::Packet::Subscribe(x) => Some(x.len()),
                v4::Packet::SubAck(x) => Some(x.len()),
                _ => None,
            },
            P::P5(p) => match p {
                v5::Packet::Connect(x) => Some(x.len()),
                v5::Packet::Publish(x) => Some(x.len()),
                v5::Packet::Subscribe(x) => Some(x.len()),
                v5::Packet::SubAck(x) => Some(x.len()),
                v5::Packet::UnsubAck(x) => Some(x.len()),
                v5::Packet::Unsubscribe(x) => Some(x.len()),
                _ => None,
            },
        }
    }

    pub fn public_props_len(&self) -> Option<usize> {
        match self {
            P::P5(p) => match p {
                v5::Packet::ConnAck(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubAck(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubRec(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubRel(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubComp(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::Subscribe(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::SubAck(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::UnsubAck(x) => x.properties.as_ref().map(|p| p.len()),
                _ => None,
            },
            _ => None,
        }
    }
}

/// The stream reader, unguarded.
pub fn read_raw(s: &mut BytesMut, max: usize, ver: Ver) -> Result<P, Error> {
    match ver {
        V4 => v4::read(s, max).map(P::P4),
        V5 => v5::read(s, max).map(P::P5),
    }
}

pub fn read(s: &mut BytesMut, max: usize, ver: Ver) -> Result<Result<P, Error>, Fail> {
    call(if ver == V4 { "v4::read" } else { "v5::read" }, || read_raw(s, max, ver))
}

/// Read one frame given alone, with no size limit; the stream must be empty afterwards.
pub fn read_frame(frame: &[u8], ver: Ver) -> Result<Result<P, Error>, Fail> {
    let mut s = BytesMut::from(frame);
    let r = read(&mut s, usize::MAX, ver)?;
    Ok(r)
}

pub fn more(e: &Error) -> bool {
    matches!(e, Error::InsufficientBytes(_))
}

/// check, split, and the reader of the packet's type
pub fn read_per_packet(frame: &[u8], ver: Ver) -> Result<Result<P, Error>, Fail> {
    let mut s = BytesMut::from(frame);
    let h = match call("check", || check(s.iter(), usize::MAX))? {
        Ok(h) => h,
        Err(e) => return Ok(Err(e)),
    };
    let n = call("frame_length", || h.frame_length())?;
    if n > s.len() {
        return fail(format!("frame_length {n} exceeds the {} bytes check accepted", s.len()));
    }
    let b = s.split_to(n).freeze();
    call("per-packet reader", || per_packet(h, b, ver))
}

pub fn per_packet(h: FixedHeader, b: Bytes, ver: Ver) -> Result<P, Error> {
    use mqttbytes::PacketType as T;
    let t = h.packet_type()?;
    Ok(match ver {
        V4 => P::P4(match t {
            T::Connect => v4::Packet::Connect(v4::Connect::read(h, b)?),
            T::ConnAck => v4::Packet::ConnAck(v4::ConnAck::read(h, b)?),
            T::Publish => v4::Packet::Publish(v4::Publish::read(h, b)?),
            T::PubAck => v4::Packet::PubAck(v4::PubAck::read(h, b)?),
            T::PubRec => v4::Packet::PubRec(v4::PubRec::read(h, b)?),
            T::PubRel => v4::Packet::PubRel(v4::PubRel::read(h, b)?),
            T::PubComp => v4::Packet::PubComp(v4::PubComp::read(h, b)?),
            T::Subscribe => v4::Packet::Subscribe(v4::Subscribe::read(h, b)?),
            T::SubAck => v4::Packet::SubAck(v4::SubAck::read(h, b)?),
            T::Unsubscribe => v4::Packet::Unsubscribe(v4::Unsubscribe::read(h, b)?),
            T::UnsubAck => v4::Packet::UnsubAck(v4::UnsubAck::read(h, b)?),
            T::PingReq => v4::Packet::PingReq,
            T::PingResp => v4::Packet::PingResp,
            T::Disconnect => v4::Packet::Disconnect,
        }),
        V5 => P::P5(match t {
            T::Connect => v5::Packet::Connect(v5::Connect::read(h, b)?),
            T::ConnAck => v5::Packet::ConnAck(v5::ConnAck::read(h, b)?),
            T::Publish => v5::Packet::Publish(v5::Publish::read(h, b)?),
            T::PubAck => v5::Packet::PubAck(v5::PubAck::read(h, b)?),
            T::PubRec => v5::Packet::PubRec(v5::PubRec::read(h, b)?),
            T::PubRel => v5::Packet::PubRel(v5::PubRel::read(h, b)?),
            T::PubComp => v5::Packet::PubComp(v5::PubComp::read(h, b)?),
            T::Subscribe => v5::Packet::Subscribe(v5::Subscribe::read(h, b)?),
            T::SubAck => v5::Packet::SubAck(v5::SubAck::read(h, b)?),
            T::Unsubscribe => v5::Packet::Unsubscribe(v5::Unsubscribe::read(h, b)?),
            T::UnsubAck => v5::Packet::UnsubAck(v5::UnsubAck::read(h, b)?),
            T::PingReq => v5::Packet::PingReq,
            T::PingResp => v5::Packet::PingResp,
            T::Disconnect => v5::Packet::Disconnect(v5::Disconnect::read(h, b)?),
        }),
    })
}
