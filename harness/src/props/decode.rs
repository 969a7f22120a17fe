//! C10, C11, C25

use super::roundtrip::{large, minimal, plain, set_props};
use super::*;
use crate::gen;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "3.1.1 frames with packet-level or byte-level edits or random bodies against the verdict of the reference decoder (must reject / tolerated / valid; fields compared whenever the crate accepts), the same for lists of up to millions of items, every truncation and every single-byte change of valid frames; non-trivial: not a valid frame; distinct by wire bytes",
            parts: vec![
                Part::random("edited frames", 18_000_000, 180_000_000, |s, c| edited(s, c, V4)),
                Part::random("large frames, edited", 6_000, 120_000, |s, c| large_edited(s, c, V4)),
                Part::random("every truncation", 180_000, 1_800_000, |s, c| truncations(s, c, V4)),
                Part::random("every position", 72_000, 720_000, |s, c| positions(s, c, V4)),
            ],
        },
        Prop {
            id: "C11",
            rule: "MQTT 5 frames with packet-level or byte-level edits or random bodies against the verdict of the reference decoder (must reject / tolerated / valid; fields compared whenever the crate accepts), the same for lists of up to millions of items, every truncation, every single-byte change, every lying property length; non-trivial: not a valid frame; distinct by wire bytes",
            parts: vec![
                Part::random("edited frames", 9_600_000, 96_000_000, |s, c| edited(s, c, V5)),
                Part::random("large frames, edited", 6_000, 120_000, |s, c| large_edited(s, c, V5)),
                Part::random("every truncation", 144_000, 1_440_000, |s, c| truncations(s, c, V5)),
                Part::random("every position", 60_000, 600_000, |s, c| positions(s, c, V5)),
                Part::random("every property length", 240_000, 2_400_000, prop_lengths),
                Part::all("one property, every packet", 15 * 256, |s, c| foreign(s, c, false)),
            ],
        },
        Prop {
            id: "C25",
            rule: "valid frames with exactly one bad value at a known position, every bad byte value at every position enumerated on plain packets and at random on rich packets and on large ones; non-trivial: all; distinct by wire bytes",
            parts: vec![
                Part::random("one fault, rich packets", 24_000_000, 240_000_000, one_fault),
                Part::random("one fault, large packets", 10_000, 200_000, large_fault),
                Part::all("one bad byte, plain packets", 2 * 14 * 256, bad_byte),
                Part::all("one property, every packet", 15 * 256, |s, c| foreign(s, c, true)),
                Part::random("zero packet id when encoding", 960_000, 9_600_000, pkid_zero_write),
            ],
        },
    ]
}

fn one(frame: &[u8], c: &mut Ctx, ver: Ver) -> Result<Verdict, Fail> {
    let v = decode(frame, ver);
    let r = read_frame(frame, ver)?;
    judge(ver, frame, &v, &r)?;
    c.label(match (&v, r.is_ok()) {
        (Verdict::Lenient(..), true) => "tolerated and accepted",
        (Verdict::Lenient(..), false) => "tolerated but rejected",
        (Verdict::Accept(_), _) => "valid",
        (Verdict::Reject(_), _) => "malformed and rejected",
    });
    Ok(v)
}

fn edited(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (f, from) = gen::bad_frame(s, ver);
    c.label(from);
    c.subject(&f);
    c.note(|| format!("{} {}", vname(ver), hex(&f)));
    let v = one(&f, c, ver)?;
    c.note(|| format!("{v:?}"));
    c.nontrivial = !matches!(v, Verdict::Accept(_));
    c.label(TYPE_NAMES[(f[0] >> 4) as usize]);
    Ok(())
}

/// Lists of very many items and fields of up to the largest size, with the damage anywhere.
fn large_edited(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let mut m = large(s, ver);
    let form = s.below(3) as u8;
    if s.flag() {
        gen::wild(s, &mut m, ver);
    }
    let (mut b1, mut e) = encode(&m, ver, form);
    if e.body.len() > 1_000_000 && s.chance(7, 8) {
        return Ok(());
    }
    for _ in 0..s.below(3) {
        gen::mutate(s, &mut b1, &mut e);
    }
    if e.body.len() > MAX_VAR {
        return Ok(());
    }
    let f = frame(b1, &e.body);
    c.label("from: large packets");
    c.subject(&f);
    c.note(|| format!("{} {}", vname(ver), hex(&f)));
    let v = one(&f, c, ver)?;
    c.nontrivial = !matches!(v, Verdict::Accept(_));
    c.label(TYPE_NAMES[(f[0] >> 4) as usize]);
    Ok(())
}

fn base(s: &mut Src, ver: Ver) -> (u8, Enc) {
    loop {
        let m = gen::model(s, ver);
        let form = s.below(3) as u8;
        let (b1, e) = encode(&m, ver, form);
        if e.body.len() <= 400 || s.rec.len() > 5000 {
            return (b1, e);
        }
    }
}

fn truncations(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (b1, e) = base(s, ver);
    c.note(|| format!("{} first byte {b1:02x}, every prefix of {}", vname(ver), hex(&e.body)));
    c.subject(&e.body);
    c.nontrivial = e.body.len() > 2;
    for n in 0..e.body.len().min(400) {
        one(&frame(b1, &e.body[..n]), c, ver)?;
    }
    Ok(())
}

fn positions(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (b1, e) = base(s, ver);
    c.note(|| format!("{} first byte {b1:02x}, every byte of {} changed", vname(ver), hex(&e.body)));
    c.subject(&e.body);
    c.nontrivial = e.body.len() > 2;
    let mut f = frame(b1, &e.body);
    let h = f.len() - e.body.len();
    let most = (10_000_000 / (f.len() + 1)).clamp(8, 200);
    for i in h..f.len().min(h + most) {
        let old = f[i];
        for new in [0, 1, 2, 3, 0xff, 0x7f, 0x80, old ^ 1, old ^ 2, old ^ 4, old ^ 0x80, old.wrapping_add(1), old.wrapping_sub(1)] {
            f[i] = new;
            one(&f, c, ver)?;
        }
        f[i] = old;
    }
    for hi in 0..16 {
        for lo in [0, 2, 1, 6, 15] {
            f[0] = hi << 4 | lo;
            one(&f, c, ver)?;
        }
    }
    Ok(())
}

/// Every property length from 0 to past the end of the frame, in place of the true one.
fn prop_lengths(s: &mut Src, c: &mut Ctx) -> R {
    let (b1, e) = base(s, V5);
    let ms: Vec<Mark> = e.marks.iter().copied().filter(|m| m.kind == K::PropLen).collect();
    if ms.is_empty() {
        return Ok(());
    }
    let m = *s.pick(&ms);
    c.note(|| format!("first byte {b1:02x}, property length at {} of {} lies", m.at, hex(&e.body)));
    c.subject(&e.body);
    c.nontrivial = true;
    let left = e.body.len() - m.at - m.len;
    for n in (0..=left + 3).take(250).chain([left + 1, 16383, 16384, MAX_VAR]) {
        let mut b = e.body.clone();
        b.splice(m.at..m.at + m.len, var(n));
        one(&frame(b1, &b), c, V5)?;
    }
    Ok(())
}

/// Every property id in every packet; with `named`, the error has to carry the id.
fn foreign(s: &mut Src, c: &mut Ctx, named: bool) -> R {
    let i = s.below(15 * 256);
    let (t, id) = ((i % 15) as u8, (i / 15) as u8);
    if t == PINGREQ || t == PINGRESP {
        return Ok(());
    }
    let mut m = minimal(t);
    let v = plain(prop_kind(id).unwrap_or('s'));
    let first = if allowed(t).contains(&38) { vec![(38, PVal::Pair("a".into(), "b".into()))] } else { vec![] };
    for lead in [vec![], first] {
        let mut p = lead.clone();
        p.push((id, v.clone()));
        set_props(&mut m, t, p);
        let f = encode_frame(&m, V5, 2);
        c.subject(&f);
        c.nontrivial = true;
        c.note(|| hex(&f));
        let r = read_frame(&f, V5)?;
        if !allowed(t).contains(&id) {
            match r {
                Err(Error::InvalidPropertyType(x)) if x == id => {}
                Err(e) if !named && !more(&e) => {}
                r => {
                    return fail(format!(
                        "property {id} in {} ({}): expected InvalidPropertyType({id}), got {:?}",
                        TYPE_NAMES[m.ty() as usize], hex(&f), r.map(|p| p.model())
                    ))
                }
            }
        } else if !named {
            judge(V5, &f, &decode(&f, V5), &r)?;
        }
    }
    Ok(())
}

fn expect(f: &[u8], ver: Ver, c: &mut Ctx, want: &[Error], what: &str) -> R {
    c.subject(f);
    c.nontrivial = true;
    c.note(|| format!("{} {} bad {what}", vname(ver), hex(f)));
    match read_frame(f, ver)? {
        Err(e) if want.contains(&e) => {}
        r => {
            return fail(format!(
                "{} frame {} with bad {what}: expected {want:?}, got {:?}",
                vname(ver), hex(f), r.map(|p| p.model())
            ))
        }
    }
    // the reader of the packet type alone says the same
    if f[0] >> 4 != 0 && f[0] >> 4 != 15 && framing(f, usize::MAX) != Framing::Frame(2, 0) {
        match read_per_packet(f, ver)? {
            Err(e) if want.contains(&e) => {}
            r => {
                return fail(format!(
                    "{} frame {} with bad {what}, per-packet reader: expected {want:?}, got {:?}",
                    vname(ver), hex(f), r.map(|p| p.model())
                ))
            }
        }
    }
    Ok(())
}

fn code_errors(ver: Ver, ty: u8, n: u8) -> Vec<Error> {
    match ty {
        CONNACK => vec![Error::InvalidConnectReturnCode(n)],
        SUBACK => vec![Error::InvalidSubscribeReasonCode(n)],
        UNSUBACK => vec![Error::InvalidSubscribeReasonCode(n), Error::InvalidReason(n)],
        _ if ver == V5 => vec![Error::InvalidConnectReturnCode(n), Error::InvalidReason(n)],
        _ => vec![],
    }
}

fn bad_byte(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(2 * 14 * 256);
    let (ver, i) = (if i % 2 == 0 { V4 } else { V5 }, i / 2);
    let (ty, b) = ((i % 14 + 1) as u8, (i / 14) as u8);
    let mut m = minimal(ty);
    if ver == V4 {
        if let M::Connect { level, .. } = &mut m {
            *level = 4;
        }
    }
    match &mut m {
        M::Connect { level, .. } => {
            if b == 4 || b == 5 {
                return Ok(());
            }
            *level = b;
            let f = encode_frame(&m, ver, 0);
            expect(&f, ver, c, &[Error::InvalidProtocolLevel(b)], "protocol level")
        }
        M::ConnAck { code, .. } | M::Ack { reason: code, .. } | M::Disconnect { reason: code, .. } => {
            if codes(ver, ty).contains(&b) || (ver == V4 && ty != CONNACK) || (ty == DISCONNECT && b == 0x8C) {
                return Ok(());
            }
            *code = b;
            let errs = code_errors(ver, ty, b);
            for form in 1..3 {
                let f = encode_frame(&m, ver, form);
                expect(&f, ver, c, &errs, "reason code")?;
            }
            Ok(())
        }
        M::SubAck { codes: list, .. } | M::UnsubAck { codes: list, .. } => {
            if codes(ver, ty).contains(&b) || (ver == V4 && ty == UNSUBACK) {
                return Ok(());
            }
            list.push(b);
            list.push(0);
            let f = encode_frame(&m, ver, 0);
            expect(&f, ver, c, &code_errors(ver, ty, b), "reason code")
        }
        M::Subscribe { filters, .. } => {
            filters.push(("g".into(), b));
            let f = encode_frame(&m, ver, 0);
            let rule = b >> 4 & 3;
            match (b & 3 == 3, ver == V5 && rule == 3) {
                (true, false) => expect(&f, ver, c, &[Error::InvalidQoS(3)], "QoS"),
                (false, true) => expect(&f, ver, c, &[Error::InvalidRetainForwardRule(3)], "retain handling"),
                _ => Ok(()),
            }
        }
        M::PingReq | M::PingResp => {
            // packet types 0 and 15, with bodies
            let nib = b >> 4;
            if nib != 0 && nib != 15 {
                return Ok(());
            }
            let f = frame(b, if ty == PINGREQ { &[] } else { &[0, 1, 2] });
            expect(&f, ver, c, &[Error::InvalidPacketType(nib)], "packet type")
        }
        _ => Ok(()),
    }
}

fn one_fault(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let kind = s.below(12);
    let b = s.byte();
    match kind {
        0 => {
            let m = gen::model(s, ver);
            let nib = if b & 1 == 0 { 0u8 } else { 15 };
            let (_, e) = encode(&m, ver, 0);
            expect(&frame(nib << 4 | b >> 4, &e.body), ver, c, &[Error::InvalidPacketType(nib)], "packet type")
        }
        1 => {
            let mut m = gen::model_of(s, ver, PUBLISH);
            if let M::Publish { qos, pkid, .. } = &mut m {
                *qos = 3;
                *pkid = (*pkid).max(1);
            }
            expect(&encode_frame(&m, ver, 0), ver, c, &[Error::InvalidQoS(3)], "publish QoS")
        }
        2 => {
            let mut m = gen::model_of(s, ver, PUBLISH);
            if let M::Publish { qos, pkid, .. } = &mut m {
                *qos = 1 + (b & 1);
                *pkid = 0;
            }
            expect(&encode_frame(&m, ver, 0), ver, c, &[Error::PacketIdZero], "packet id")
        }
        3 | 4 => {
            let lv = if ver == V5 && s.flag() { 5 } else { 4 };
            let mut m = gen::connect(s, ver, lv);
            if kind == 3 {
                let bad = if b == 4 || b == 5 { 3 } else { b };
                if let M::Connect { level, .. } = &mut m {
                    *level = bad;
                }
                return expect(&encode_frame(&m, ver, 0), ver, c, &[Error::InvalidProtocolLevel(bad)], "protocol level");
            }
            if let M::Connect { will: Some(w), .. } = &mut m {
                w.qos = 3;
                return expect(&encode_frame(&m, ver, 0), ver, c, &[Error::InvalidQoS(3)], "will QoS");
            }
            Ok(())
        }
        5 | 6 => {
            let list: &[u8] = if ver == V4 {
                &[CONNACK, SUBACK]
            } else {
                &[CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT]
            };
            let ty = *s.pick(list);
            let mut m = gen::model_of(s, ver, ty);
            if codes(ver, ty).contains(&b) || (ty == DISCONNECT && b == 0x8C) {
                return Ok(());
            }
            match &mut m {
                M::ConnAck { code, .. } | M::Ack { reason: code, .. } | M::Disconnect { reason: code, .. } => *code = b,
                M::SubAck { codes, .. } | M::UnsubAck { codes, .. } => {
                    let i = s.below(codes.len() as u64) as usize;
                    codes[i] = b;
                }
                _ => unreachable!(),
            }
            let form = s.below(3) as u8;
            expect(&encode_frame(&m, ver, form), ver, c, &code_errors(ver, ty, b), "reason code")
        }
        7 => {
            let mut m = gen::model_of(s, ver, SUBSCRIBE);
            if let M::Subscribe { filters, .. } = &mut m {
                let i = s.below(filters.len() as u64) as usize;
                filters[i].1 |= 3;
            }
            expect(&encode_frame(&m, ver, 0), ver, c, &[Error::InvalidQoS(3)], "subscribe QoS")
        }
        8 => {
            let mut m = gen::model_of(s, V5, SUBSCRIBE);
            if let M::Subscribe { filters, .. } = &mut m {
                let i = s.below(filters.len() as u64) as usize;
                filters[i].1 |= 0x30;
            }
            expect(&encode_frame(&m, V5, 0), V5, c, &[Error::InvalidRetainForwardRule(3)], "retain handling")
        }
        9 => {
            // a foreign or unknown property at a random place among allowed ones
            let ty = *s.pick(&[0, CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT]);
            if allowed(ty).contains(&b) {
                return Ok(());
            }
            let mut m = if ty == 0 || ty == CONNECT { gen::connect(s, V5, 5) } else { gen::model_of(s, V5, ty) };
            if ty == 0 && !matches!(&m, M::Connect { will: Some(_), .. }) {
                return Ok(());
            }
            let mut p = gen::props(s, ty);
            let at = s.below(p.len() as u64 + 1) as usize;
            let k = prop_kind(b).unwrap_or('b');
            p.insert(at, (b, gen::prop_val(s, k)));
            set_props(&mut m, ty, p);
            expect(&encode_frame(&m, V5, 2), V5, c, &[Error::InvalidPropertyType(b)], "property id")
        }
        10 => {
            // a field length that crosses the end of the frame
            let m = gen::model(s, ver);
            let (b1, mut e) = encode(&m, ver, 0);
            let ms: Vec<Mark> = e.marks.iter().copied().filter(|m| m.kind == K::Len16).collect();
            if ms.is_empty() {
                return Ok(());
            }
            let mk = *s.pick(&ms);
            let left = e.body.len() - mk.at - 2;
            if left >= 65535 {
                return Ok(());
            }
            let n = s.range(left as u64 + 1, 65535) as u16;
            e.body[mk.at..mk.at + 2].copy_from_slice(&n.to_be_bytes());
            let f = frame(b1, &e.body);
            expect(&f, ver, c, &[Error::BoundaryCrossed(n as usize)], "field length")
        }
        _ => {
            // the frame is above the limit
            let (_, f) = gen::valid_frame(s, ver);
            let Framing::Frame(_, n) = framing(&f, usize::MAX) else { panic!() };
            if n == 0 {
                return Ok(());
            }
            let max = s.below(n as u64) as usize;
            c.subject(&f);
            c.nontrivial = true;
            c.note(|| format!("{} {} limit {max}", vname(ver), hex(&f)));
            let mut st = BytesMut::from(&f[..]);
            let r = read(&mut st, max, ver)?;
            ensure!(
                r == Err(Error::PayloadSizeLimitExceeded(n)),
                "{} frame {} with limit {max}: expected PayloadSizeLimitExceeded({n}), got {:?}", vname(ver), hex(&f), r.map(|p| p.model())
            );
            Ok(())
        }
    }
}

/// One bad value at any place in a large packet.
fn large_fault(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let mut m = large(s, ver);
    let ty = m.ty();
    let b = s.byte();
    let how = s.below(3);
    if ver == V5 && how == 0 {
        let t = if matches!(&m, M::Connect { will: Some(_), .. }) && s.flag() { WILL } else { ty };
        let list = match &mut m {
            M::Connect { will: Some(w), .. } if t == WILL => &mut w.props,
            m => match m.props_mut() {
                Some(p) => p,
                None => return Ok(()),
            },
        };
        if allowed(t).contains(&b) {
            return Ok(());
        }
        let at = s.below(list.len() as u64 + 1) as usize;
        let k = prop_kind(b).unwrap_or('b');
        list.insert(at, (b, gen::prop_val(s, k)));
        return expect(&encode_frame(&m, V5, 2), V5, c, &[Error::InvalidPropertyType(b)], "property id");
    }
    if how == 1 {
        let (b1, mut e) = encode(&m, ver, 0);
        let end = e.body.len();
        let ms: Vec<Mark> = e.marks.iter().copied().filter(|m| m.kind == K::Len16 && end - m.at - 2 < 65535).collect();
        if ms.is_empty() {
            return Ok(());
        }
        let mk = *s.pick(&ms);
        let n = s.range((end - mk.at - 2) as u64 + 1, 65535) as u16;
        e.body[mk.at..mk.at + 2].copy_from_slice(&n.to_be_bytes());
        return expect(&frame(b1, &e.body), ver, c, &[Error::BoundaryCrossed(n as usize)], "field length");
    }
    let at = |s: &mut Src, n: usize| s.below(n as u64) as usize;
    let (errs, what) = match &mut m {
        M::Publish { qos, pkid, .. } => {
            *pkid = (*pkid).max(1);
            *qos = 3;
            (vec![Error::InvalidQoS(3)], "publish QoS")
        }
        M::Connect { will: Some(w), .. } => {
            w.qos = 3;
            (vec![Error::InvalidQoS(3)], "will QoS")
        }
        M::Connect { level, .. } => {
            let bad = if b == 4 || b == 5 { 3 } else { b };
            *level = bad;
            (vec![Error::InvalidProtocolLevel(bad)], "protocol level")
        }
        M::Subscribe { filters, .. } => {
            let i = at(s, filters.len());
            if ver == V5 && s.flag() {
                filters[i].1 |= 0x30;
                (vec![Error::InvalidRetainForwardRule(3)], "retain handling")
            } else {
                filters[i].1 |= 3;
                (vec![Error::InvalidQoS(3)], "subscribe QoS")
            }
        }
        M::SubAck { codes: l, .. } | M::UnsubAck { codes: l, .. } if !l.is_empty() => {
            if codes(ver, ty).contains(&b) || (ver == V4 && ty == UNSUBACK) {
                return Ok(());
            }
            let i = at(s, l.len());
            l[i] = b;
            (code_errors(ver, ty, b), "reason code")
        }
        M::ConnAck { code, .. } | M::Ack { reason: code, .. } | M::Disconnect { reason: code, .. } => {
            if codes(ver, ty).contains(&b) || (ver == V4 && ty != CONNACK) || (ty == DISCONNECT && b == 0x8C) {
                return Ok(());
            }
            *code = b;
            (code_errors(ver, ty, b), "reason code")
        }
        _ => return Ok(()),
    };
    expect(&encode_frame(&m, ver, 2), ver, c, &errs, what)
}

fn pkid_zero_write(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let mut m = gen::model_of(s, ver, PUBLISH);
    if let M::Publish { qos, pkid, .. } = &mut m {
        *qos = s.range(1, 2) as u8;
        *pkid = 0;
    }
    c.note(|| format!("{m:?}"));
    c.subject(&encode_frame(&m, ver, 0));
    c.nontrivial = true;
    let mut b = BytesMut::new();
    let r = to_crate(&m, ver, false).write(&mut b)?;
    ensure!(r == Err(Error::PacketIdZero), "encoding {m:?}: expected PacketIdZero, got {r:?}");
    Ok(())
}
