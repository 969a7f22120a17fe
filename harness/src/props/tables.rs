//! C18

use super::roundtrip::{minimal, plain, set_props};
use super::*;
use crate::gen;
use mqttbytes::{v4, v5, FixedHeader};
use std::convert::TryFrom;

const POS: u64 = 32;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        rule: "all 256 byte values in every code position of plain packets of both versions and in every public conversion; then random packets with rich contents around the code, and lists of up to millions of codes; non-trivial: all; distinct by (position, byte) and wire bytes",
        parts: vec![
            Part::all("every position, every byte", POS * 256, point),
            Part::all("every position in a list, every byte", 6 * 3 * 256, in_list),
            Part::all("every property id, every packet", 14 * 256, property_id),
            Part::random("codes in rich packets", 3_000_000, 30_000_000, rich),
            Part::random("codes in large packets", 6_000, 120_000, in_large),
        ],
    }]
}

/// The frame is read exactly when MQTT allows it, as what MQTT says it is, and written back the same.
fn exact(ver: Ver, f: &[u8]) -> R {
    let v = decode(f, ver);
    let r = read_frame(f, ver)?;
    judge(ver, f, &v, &r)?;
    match (&v, &r) {
        (Verdict::Accept(_), Err(e)) => {
            fail(format!("{} reader rejects {}, which MQTT lists: {e:?}", vname(ver), hex(f)))
        }
        (Verdict::Accept(m), Ok(p)) => {
            let b = p.bytes()?;
            strictly(&b, ver, &m.clone().canon(ver))
        }
        _ => Ok(()),
    }
}

fn set(ver: Ver, m: M, form: u8, kind: K, nth: usize, b: u8) -> Vec<u8> {
    let (b1, mut e) = encode(&m, ver, form);
    let mk = e.marks.iter().filter(|k| k.kind == kind).nth(nth).copied().unwrap();
    e.body[mk.at] = b;
    frame(b1, &e.body)
}

fn point(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(POS * 256);
    let (b, pos) = ((i % 256) as u8, i / 256);
    c.subject(&[1, pos as u8, b]);
    c.note(|| format!("position {pos}, byte {b:#04x}"));
    c.nontrivial = true;
    let fr = |ver, ty: u8, form, kind| set(ver, minimal(ty), form, kind, 0, b);
    match pos {
        0 => {
            c.label("FixedHeader::packet_type");
            let r = call("packet_type", || FixedHeader::new(b, 1, 0).packet_type())?;
            let t = b >> 4;
            match r {
                Ok(p) if (1..=14).contains(&t) => {
                    ensure!(p as u8 == t, "packet_type of {b:#04x} is {p:?} = {}", p as u8);
                    let names = [
                        "Connect", "ConnAck", "Publish", "PubAck", "PubRec", "PubRel", "PubComp", "Subscribe", "SubAck",
                        "Unsubscribe", "UnsubAck", "PingReq", "PingResp", "Disconnect",
                    ];
                    ensure!(format!("{p:?}") == names[t as usize - 1], "packet_type of {b:#04x} is {p:?}");
                    Ok(())
                }
                Err(_) if !(1..=14).contains(&t) => Ok(()),
                r => fail(format!("packet_type of {b:#04x} is {r:?}")),
            }
        }
        1 => {
            c.label("qos");
            match call("qos", || mqttbytes::qos(b))? {
                Ok(q) if b <= 2 => {
                    ensure!(qos_num(q) == b && q as u8 == b, "qos({b}) is {q:?}");
                    Ok(())
                }
                Err(_) if b > 2 => Ok(()),
                r => fail(format!("qos({b}) is {r:?}")),
            }
        }
        2 => {
            c.label("v4 SubscribeReasonCode::try_from");
            match call("try_from", || v4::SubscribeReasonCode::try_from(b))? {
                Ok(x) if codes(V4, SUBACK).contains(&b) => {
                    ensure!(suback4n(&x) == b, "v4 SubscribeReasonCode::try_from({b:#04x}) is {x:?}");
                    Ok(())
                }
                Err(_) if !codes(V4, SUBACK).contains(&b) => Ok(()),
                r => fail(format!("v4 SubscribeReasonCode::try_from({b:#04x}) is {r:?}")),
            }
        }
        3 => {
            c.label("v5 SubscribeReasonCode::try_from");
            match call("try_from", || v5::SubscribeReasonCode::try_from(b))? {
                Ok(x) if codes(V5, SUBACK).contains(&b) => {
                    ensure!(suback5n(&x) == b, "v5 SubscribeReasonCode::try_from({b:#04x}) is {x:?}");
                    Ok(())
                }
                Err(_) if !codes(V5, SUBACK).contains(&b) => Ok(()),
                r => fail(format!("v5 SubscribeReasonCode::try_from({b:#04x}) is {r:?}")),
            }
        }
        4 => {
            c.label("v5 DisconnectReasonCode::try_from");
            match call("try_from", || v5::DisconnectReasonCode::try_from(b))? {
                // 0x8C is listed for DISCONNECT in one table of the specification only
                _ if b == 0x8C => Ok(()),
                Ok(x) if codes(V5, DISCONNECT).contains(&b) => {
                    ensure!(
                        disconnect5n(&x) == b && x as u8 == b,
                        "v5 DisconnectReasonCode::try_from({b:#04x}) is {x:?}"
                    );
                    Ok(())
                }
                Err(_) if !codes(V5, DISCONNECT).contains(&b) => Ok(()),
                r => fail(format!("v5 DisconnectReasonCode::try_from({b:#04x}) is {r:?}")),
            }
        }
        5 => exact(V4, &fr(V4, CONNACK, 0, K::Code)),
        6 => exact(V5, &fr(V5, CONNACK, 0, K::Code)),
        7 => exact(V4, &fr(V4, CONNACK, 0, K::Flags)),
        8 => exact(V5, &fr(V5, CONNACK, 0, K::Flags)),
        9 => exact(V4, &fr(V4, SUBACK, 0, K::Code)),
        10 => exact(V5, &fr(V5, SUBACK, 0, K::Code)),
        11 => exact(V5, &fr(V5, UNSUBACK, 0, K::Code)),
        12..=15 => {
            // reason code alone, and before a property length
            let ty = PUBACK + (pos - 12) as u8;
            let full = fr(V5, ty, 2, K::Code);
            exact(V5, &full)?;
            exact(V5, &frame(full[0], &full[2..full.len() - 1]))
        }
        16 => {
            let full = fr(V5, DISCONNECT, 2, K::Code);
            exact(V5, &full)?;
            exact(V5, &frame(full[0], &full[2..full.len() - 1]))
        }
        17 => {
            let mut m = minimal(CONNECT);
            if let M::Connect { level, .. } = &mut m {
                *level = 4;
            }
            exact(V4, &set(V4, m, 0, K::Level, 0, b))
        }
        18 => exact(V5, &fr(V5, CONNECT, 0, K::Level)),
        19 => {
            let mut m = minimal(CONNECT);
            if let M::Connect { level, .. } = &mut m {
                *level = 4;
            }
            exact(V5, &set(V5, m, 0, K::Level, 0, b))
        }
        20 => exact(V4, &fr(V4, SUBSCRIBE, 0, K::Opts)),
        21 => exact(V5, &fr(V5, SUBSCRIBE, 0, K::Opts)),
        // connect flags, with everything present that the flags may ask for
        22 | 23 => {
            let ver = if pos == 22 { V4 } else { V5 };
            let level = if ver == V4 { 4 } else { 5 };
            let m = M::Connect {
                level,
                keep_alive: 3,
                client_id: "c".into(),
                clean: b & 2 != 0,
                will: if b & 4 != 0 {
                    Some(Will { topic: "w".into(), msg: vec![1], qos: 0, retain: false, props: vec![] })
                } else {
                    None
                },
                user: if b & 0x80 != 0 { Some("u".into()) } else { None },
                pass: if b & 0x40 != 0 { Some("p".into()) } else { None },
                props: vec![],
            };
            exact(ver, &set(ver, m, 0, K::Flags, 0, b))
        }
        // first byte of every kind of body
        24 | 25 => {
            let ver = if pos == 24 { V4 } else { V5 };
            let t = b >> 4;
            if !(1..=14).contains(&t) {
                return exact(ver, &frame(b, &[0, 1, 0, 0]));
            }
            let mut m = minimal(t);
            if let M::Connect { level, .. } = &mut m {
                *level = if ver == V4 { 4 } else { 5 };
            }
            if let M::Publish { qos, .. } = &mut m {
                *qos = if b >> 1 & 3 == 0 { 0 } else { 1 };
            }
            let (_, e) = encode(&m, ver, 0);
            exact(ver, &frame(b, &e.body))
        }
        _ => {
            c.nontrivial = false;
            Ok(())
        }
    }
}

fn in_list(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(6 * 3 * 256);
    let (b, i) = ((i % 256) as u8, i / 256);
    let (at, which) = ((i % 3) as usize, i / 3);
    c.nontrivial = true;
    c.subject(&[2, which as u8, at as u8, b]);
    c.note(|| format!("list {which}, position {at}, byte {b:#04x}"));
    let three = |ty, cs: [u8; 3]| match ty {
        SUBACK => M::SubAck { pkid: 3, props: vec![], codes: cs.to_vec() },
        _ => M::UnsubAck { pkid: 3, props: vec![], codes: cs.to_vec() },
    };
    let filters =
        || M::Subscribe { pkid: 3, props: vec![], filters: vec![("a".into(), 0), ("b/#".into(), 1), ("".into(), 2)] };
    let (ver, m, k) = match which {
        0 => (V4, three(SUBACK, [0, 1, 2]), K::Code),
        1 => (V5, three(SUBACK, [0, 0x83, 2]), K::Code),
        2 => (V5, three(UNSUBACK, [0, 0x11, 0x80]), K::Code),
        3 => (V4, filters(), K::Opts),
        4 => (V5, filters(), K::Opts),
        _ => return Ok(()),
    };
    let m = match m {
        M::Subscribe { pkid, props, mut filters } => {
            filters[2].0 = "c".into();
            M::Subscribe { pkid, props, filters }
        }
        m => m,
    };
    exact(ver, &set(ver, m, 0, k, at, b))
}

/// A property id is accepted exactly where MQTT lists it.
fn property_id(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(14 * 256);
    let (id, t) = ((i % 256) as u8, i / 256);
    let ty = if t == 13 { DISCONNECT } else { t as u8 };
    if ty == PINGREQ {
        return Ok(());
    }
    c.nontrivial = true;
    c.subject(&[3, ty, id]);
    c.note(|| format!("property {id:#04x} in {}", if ty == 0 { "will" } else { TYPE_NAMES[ty as usize] }));
    let v = plain(prop_kind(id).unwrap_or('b'));
    let mut m = minimal(ty);
    set_props(&mut m, ty, vec![(id, v)]);
    let f = encode_frame(&m, V5, 0);
    let ok = allowed(ty).contains(&id);
    c.label(if ok { "listed" } else { "not listed" });
    let r = read_frame(&f, V5)?;
    ensure!(r.is_ok() == ok, "property {id:#04x} in {}: {r:?}", hex(&f));
    exact(V5, &f)
}

fn rich(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let ty = *s.pick(&[CONNACK, SUBACK, PUBACK, PUBREC, PUBREL, PUBCOMP, UNSUBACK, DISCONNECT, SUBSCRIBE]);
    let m = gen::model_of(s, ver, ty);
    code_in(s, c, ver, &m)
}

fn in_large(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let m = super::roundtrip::large(s, ver);
    code_in(s, c, ver, &m)
}

fn code_in(s: &mut Src, c: &mut Ctx, ver: Ver, m: &M) -> R {
    let form = s.below(3) as u8;
    let (b1, mut e) = encode(m, ver, form);
    let ms: Vec<Mark> = e.marks.iter().copied().filter(|k| matches!(k.kind, K::Code | K::Opts)).collect();
    if ms.is_empty() {
        c.label("no code in this packet");
        return Ok(());
    }
    let k = *s.pick(&ms);
    e.body[k.at] = s.byte();
    let f = frame(b1, &e.body);
    c.nontrivial = true;
    c.label(TYPE_NAMES[m.ty() as usize]);
    c.subject(&f);
    c.note(|| format!("{} {}", vname(ver), hex(&f)));
    exact(ver, &f)
}
