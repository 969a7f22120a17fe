//! C27, C28

use super::roundtrip::{large, large_ty};
use super::*;
use crate::gen;
use bytes::Bytes;
use mqttbytes::v5;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C27",
            rule: "pairs of packets of which one is the other after an edit of one field (a bit, a character, a list element, a property, an option), or an unrelated one, the same for packets with large fields and lists of up to millions of items, the edit anywhere in them; equality in both directions against equality of the fields read through the public struct; clones compared with their original before and after either is edited, encoded or dropped; Debug and Display of everything under every formatting option; pairs of errors, of all kinds and of near numbers; QoS order; non-trivial: packets of the same type that differ; distinct by the encodings of both",
            parts: vec![
                Part::random("v4 pairs", 2_400_000, 24_000_000, |s, c| pairs(s, c, V4)),
                Part::random("v5 pairs", 4_800_000, 48_000_000, |s, c| pairs(s, c, V5)),
                Part::random("v4 clones", 900_000, 9_000_000, |s, c| clones(s, c, V4)),
                Part::random("v5 clones", 1_800_000, 18_000_000, |s, c| clones(s, c, V5)),
                Part::random("v4 clones into place", 900_000, 9_000_000, |s, c| into_place(s, c, V4)),
                Part::random("v5 clones into place", 1_800_000, 18_000_000, |s, c| into_place(s, c, V5)),
                Part::random("large pairs", 6_000, 120_000, large_pairs),
                Part::random("large clones", 2_000, 40_000, |s, c| {
                    let ver = if s.flag() { V5 } else { V4 };
                    let m = large(s, ver);
                    if s.flag() {
                        return clones_of(s, c, ver, m, true);
                    }
                    let o = if s.flag() { gen::model_of(s, ver, m.ty()) } else { nearly(s, &m, ver) };
                    if s.flag() { into_place_of(s, c, ver, m, o) } else { into_place_of(s, c, ver, o, m) }
                }),
                Part::all("qos order", 9, qos_order),
                Part::all("errors and packet types", SMALL, small_values),
                Part::random("error numbers", 600_000, 6_000_000, error_numbers),
                Part::random("fixed headers", 120_000, 1_200_000, headers),
            ],
        },
        Prop {
            id: "C28",
            rule: "property sections for each of the nine public extractors: valid ones with any tail behind them (random, or more properties), edited ones, lying lengths, ones of another packet, large ones with up to 18000 properties and fields of up to 65535 bytes, valid or damaged anywhere; the reference section reader says which must be read, how, and where they end; non-trivial: at least one property in the section; distinct by section, tail and extractor",
            parts: vec![
                Part::random("valid sections", 4_500_000, 45_000_000, |s, c| sections(s, c, 0)),
                Part::random("edited sections", 4_500_000, 45_000_000, |s, c| sections(s, c, 1)),
                Part::random("random sections", 1_500_000, 15_000_000, |s, c| sections(s, c, 2)),
                Part::all("tiny sections", 9 * 65536, tiny_sections),
                Part::random("large sections", 6_000, 120_000, large_sections),
            ],
        },
    ]
}

fn subject_of(c: &mut Ctx, ms: &[&M]) {
    for m in ms {
        match m {
            M::Publish { payload, topic, props, .. } if payload.len() > 5_000 => {
                c.subject(payload);
                c.subject(format!("{topic:?}{props:?}").as_bytes());
            }
            M::SubAck { codes, props, .. } | M::UnsubAck { codes, props, .. } if codes.len() > 5_000 => {
                c.subject(codes);
                c.subject(format!("{props:?}").as_bytes());
            }
            m => c.subject(format!("{m:?}").as_bytes()),
        }
    }
}

fn eq(a: &P, b: &P) -> Result<bool, Fail> {
    call("==", || {
        #[allow(clippy::partialeq_ne_impl)]
        let (e, n) = (a == b, a != b);
        (e, n)
    })
    .and_then(|(e, n)| if e == n { fail(clip(format!("== and != agree on {a:?} and {b:?}"))) } else { Ok(e) })
}

/// The packet after one edit anywhere in what makes it large.
fn nearly(s: &mut Src, m: &M, ver: Ver) -> M {
    let mut o = m.clone();
    let at = |s: &mut Src, n: usize| if s.flag() { n - 1 - s.below(n.min(4) as u64) as usize } else { s.below(n as u64) as usize };
    match &mut o {
        M::Publish { payload, .. } if payload.len() > 400 && s.flag() => {
            let i = at(s, payload.len());
            if s.chance(1, 4) {
                payload.remove(i);
            } else {
                payload[i] ^= 1 << s.below(8);
            }
            return o;
        }
        M::SubAck { codes: l, .. } | M::UnsubAck { codes: l, .. } if l.len() > 1 && s.chance(2, 3) => {
            let i = at(s, l.len());
            match s.below(4) {
                0 => {
                    l.remove(i);
                }
                1 => l.truncate(i.max(1)),
                _ => l[i] = *s.pick(codes(ver, m.ty())),
            }
            return o;
        }
        M::Subscribe { filters, .. } if filters.len() > 1 && s.chance(2, 3) => {
            let i = at(s, filters.len());
            match s.below(5) {
                0 => {
                    filters.remove(i);
                }
                1 => filters.truncate(i.max(1)),
                2 => filters[i].1 = (filters[i].1 + 1) % 3,
                3 => filters.swap(i, i.saturating_sub(1)),
                _ => filters[i].0.push('x'),
            }
            return o;
        }
        M::Unsubscribe { filters, .. } if filters.len() > 1 && s.chance(2, 3) => {
            let i = at(s, filters.len());
            match s.below(4) {
                0 => {
                    filters.remove(i);
                }
                1 => filters.truncate(i.max(1)),
                2 => filters.swap(i, i.saturating_sub(1)),
                _ => filters[i].push('x'),
            }
            return o;
        }
        _ => {}
    }
    // one character of one field
    let mut n = 0;
    super::encode::visit(&mut o, &mut |_, _| n += 1);
    if n == 0 || s.chance(1, 4) {
        gen::tweak(s, &mut o, ver);
        return o;
    }
    let (k, end, wide) = (s.below(n), s.flag(), s.flag());
    let place = s.below(1 << 30) as usize;
    let mut i = 0;
    super::encode::visit(&mut o, &mut |_, x| {
        if i == k {
            match x {
                super::encode::Field::S(x) if !x.is_empty() => {
                    let mut p = if end { x.len() - 1 - (place % 3).min(x.len() - 1) } else { place % x.len() };
                    while !x.is_char_boundary(p) {
                        p -= 1;
                    }
                    let old = x[p..].chars().next().unwrap();
                    // the same number of bytes, or not
                    let new = match old {
                        'é' if !wide => "è",
                        '€' if !wide => "₭",
                        '😀' if !wide => "😁",
                        'X' => "Y",
                        _ => "X",
                    };
                    x.replace_range(p..p + old.len_utf8(), new);
                }
                super::encode::Field::B(x) if !x.is_empty() => {
                    let p = if end { x.len() - 1 } else { place % x.len() };
                    x[p] ^= 1 << (place % 8);
                }
                super::encode::Field::S(x) => x.push('x'),
                super::encode::Field::B(x) => x.push(1),
            }
        }
        i += 1;
    });
    o
}

fn large_pairs(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let ty = *s.pick(&[CONNECT, PUBLISH, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, CONNACK, DISCONNECT, PUBACK, PUBREC, PUBREL, PUBCOMP]);
    let m = large_ty(s, ver, ty);
    let o = if s.chance(1, 6) { m.clone() } else { nearly(s, &m, ver) };
    compared(s, c, ver, m, o)
}

fn pairs(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (m, _) = any_value(s, ver);
    let mut o = m.clone();
    match s.below(9) {
        8 => gen::free(s, &mut o, ver),
        0 => {}
        1 => o = gen::model(s, ver),
        2 => o = gen::model_of(s, ver, m.ty()),
        3 => {
            gen::tweak(s, &mut o, ver);
            gen::tweak(s, &mut o, ver);
        }
        _ => gen::tweak(s, &mut o, ver),
    }
    compared(s, c, ver, m, o)
}

fn compared(s: &mut Src, c: &mut Ctx, ver: Ver, m: M, o: M) -> R {
    let es = s.flag();
    let (a, b) = (to_crate(&m, ver, es), to_crate(&o, ver, es));
    let (fa, fb) = (fields(&a), fields(&b));
    c.note(|| clip(format!("{} {fa:?} and {fb:?}", vname(ver))));
    subject_of(c, &[&m, &o]);
    c.label(TYPE_NAMES[m.ty() as usize]);
    let want = fa == fb;
    c.nontrivial = !want && m.ty() == o.ty();
    c.label(if want { "equal" } else { "different" });
    for (x, y, w) in [(&a, &b, want), (&b, &a, want), (&a, &a, true)] {
        let got = eq(x, y)?;
        ensure!(
            got == w,
            "{}",
            clip(format!("{:?} == {:?} is {got}, their fields are {}", fields(x), fields(y), if w { "equal" } else { "different" }))
        );
    }
    Ok(())
}

/// A legal packet, or one that only the public fields allow.
fn any_value(s: &mut Src, ver: Ver) -> (M, bool) {
    let mut m = gen::model(s, ver);
    let legal = !s.chance(1, 3);
    if !legal {
        gen::free(s, &mut m, ver);
        if s.flag() {
            gen::free(s, &mut m, ver);
        }
    }
    (m, legal)
}

/// Every public field, nothing identified.
fn fields(p: &P) -> M {
    match p {
        P::P4(p) => from4(p),
        P::P5(p) => from5(p),
    }
}

fn clones(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    // decoded packets share memory with each other, built ones do not
    let (m, legal) = any_value(s, ver);
    clones_of(s, c, ver, m, legal)
}

fn clones_of(s: &mut Src, c: &mut Ctx, ver: Ver, m: M, legal: bool) -> R {
    let built = to_crate(&m, ver, s.flag());
    let a = if s.flag() && legal {
        let f = encode_frame(&m, ver, 1);
        match read_frame(&f, ver)? {
            Ok(p) => p,
            Err(_) => built,
        }
    } else {
        built
    };
    let was = fields(&a);
    c.note(|| clip(format!("{} {was:?}", vname(ver))));
    subject_of(c, &[&m]);
    c.nontrivial = gen::nontrivial(&m);
    let b = call("clone", || a.clone())?;
    ensure!(eq(&a, &b)? && fields(&b) == was, "{}", clip(format!("the clone of {was:?} is {:?}", fields(&b))));
    let wa = encoded(&a)?;
    let wb = encoded(&b)?;
    ensure!(wa == wb, "{}", clip(format!("{was:?} encodes as {wa:?}, its clone as {wb:?}")));
    // an edit of the original
    let mut a = a;
    edit(&mut a);
    ensure!(fields(&b) == was, "{}", clip(format!("an edit of {was:?} changed its clone to {:?}", fields(&b))));
    let again = call("clone", || b.clone())?;
    drop(a);
    ensure!(eq(&b, &again)? && fields(&b) == was, "the clone changed when the original was dropped");
    call("Debug", || {
        if wa.1.len() > 5_000 {
            use std::fmt::Write;
            let _ = write!(Nowhere, "{b:?} {b:#?} {b:1.1?}");
            return;
        }
        match &b {
            P::P4(p) => debugged(p),
            P::P5(p) => debugged(p),
        }
        if let Err(e) = &wa.0 {
            debugged(e);
            displayed(e);
        }
    })?;
    ensure!(fields(&b) == was, "Debug changed the packet");
    Ok(())
}

struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

/// Debug output with every kind of option a format string can give.
fn debugged<T: std::fmt::Debug>(x: &T) {
    use std::fmt::Write;
    let mut o = Nowhere;
    for n in 0..7 {
        let _ = write!(o, "{x:.n$?} {x:#.n$?} {x:n$?} {x:^n$.3?}");
    }
    let _ = write!(o, "{x:?} {x:#?} {x:x?} {x:X?} {x:#x?} {x:#X?} {x:+?} {x:03?} {x:#09.1?} {x:*<40?} {x:é>300.40?} {x:-?}");
}

fn displayed<T: std::fmt::Display>(x: &T) {
    for n in 0..7 {
        let _ = format!("{x:.n$} {x:#.n$} {x:n$} {x:^n$.3}");
    }
    let _ = format!("{x} {x:#} {x:+} {x:03} {x:#09.1} {x:*<40} {x:é>300.40}");
}

fn encoded(p: &P) -> Result<(Result<usize, Error>, Vec<u8>), Fail> {
    let mut o = BytesMut::new();
    let n = p.write(&mut o)?;
    Ok((n, o.to_vec()))
}

/// Change something in place.
fn edit(p: &mut P) {
    use mqttbytes::v4;
    match p {
        P::P4(v4::Packet::Connect(x)) => {
            x.client_id.push('!');
            x.set_login("other", "login");
        }
        P::P4(v4::Packet::Publish(x)) => {
            x.topic.push('!');
            x.payload = Bytes::new();
        }
        P::P4(v4::Packet::Subscribe(x)) => x.filters.clear(),
        P::P4(v4::Packet::Unsubscribe(x)) => x.topics.clear(),
        P::P4(v4::Packet::SubAck(x)) => x.return_codes.clear(),
        P::P5(v5::Packet::Connect(x)) => {
            x.client_id.push('!');
            x.last_will = None;
            x.properties = None;
        }
        P::P5(v5::Packet::Publish(x)) => {
            x.topic.clear();
            x.properties = None;
        }
        P::P5(v5::Packet::ConnAck(x)) => x.properties = None,
        P::P5(v5::Packet::Subscribe(x)) => {
            for f in &mut x.filters {
                f.path.push('!');
                f.set_nolocal(true);
            }
        }
        P::P5(v5::Packet::Unsubscribe(x)) => x.filters.clear(),
        P::P5(v5::Packet::Disconnect(x)) => x.properties = None,
        _ => {}
    }
}

/// `clone_from`, for whole packets, for what they consist of, and for every field of those.
fn into_place(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (m, _) = any_value(s, ver);
    let mut o = match s.below(3) {
        0 => gen::model(s, ver),
        1 => gen::model_of(s, ver, m.ty()),
        _ => m.clone(),
    };
    for _ in 0..s.below(4) {
        if s.flag() {
            gen::tweak(s, &mut o, ver)
        } else {
            gen::free(s, &mut o, ver)
        }
    }
    into_place_of(s, c, ver, m, o)
}

fn into_place_of(s: &mut Src, c: &mut Ctx, ver: Ver, m: M, o: M) -> R {
    let a = to_crate(&m, ver, s.flag());
    let was = fields(&a);
    c.note(|| clip(format!("{} {was:?} over {o:?}", vname(ver))));
    subject_of(c, &[&m, &o]);
    let wa = encoded(&a)?;
    c.label(TYPE_NAMES[m.ty() as usize]);
    for how in 0..3 {
        let mut d = to_crate(&o, ver, s.flag());
        c.nontrivial |= m.ty() == o.ty() && fields(&d) != was;
        let deep = call("clone_from", || match how {
            0 => {
                d.clone_from(&a);
                true
            }
            1 => over(&mut d, &a, false),
            _ => over(&mut d, &a, true),
        })?;
        if !deep {
            continue;
        }
        ensure!(
            eq(&d, &a)? && fields(&d) == was,
            "{}",
            clip(format!("{was:?} cloned over {o:?} is {:?}", fields(&d)))
        );
        let wd = encoded(&d)?;
        ensure!(wd == wa, "{}", clip(format!("{was:?} encodes as {wa:?}, its clone over {o:?} as {wd:?}")));
    }
    Ok(())
}

/// Clone the content, or each field, of `a` over that of `d`, when they are of the same type.
fn over(d: &mut P, a: &P, deep: bool) -> bool {
    use mqttbytes::{v4, v5};
    macro_rules! go {
        ($m:ident, $d:expr, $a:expr, $($ty:ident { $($f:ident),* }),*) => {
            match ($d, $a) {
                $(($m::Packet::$ty(x), $m::Packet::$ty(y)) => {
                    if deep {
                        $(x.$f.clone_from(&y.$f);)*
                    } else {
                        x.clone_from(y)
                    }
                    true
                })*
                _ => false,
            }
        };
    }
    match (d, a) {
        (P::P4(d), P::P4(a)) => go!(v4, d, a,
            Connect { protocol, keep_alive, client_id, clean_session, last_will, login },
            ConnAck { session_present, code },
            Publish { dup, qos, retain, topic, pkid, payload },
            PubAck { pkid }, PubRec { pkid }, PubRel { pkid }, PubComp { pkid },
            Subscribe { pkid, filters },
            SubAck { pkid, return_codes },
            Unsubscribe { pkid, topics },
            UnsubAck { pkid }
        ),
        (P::P5(d), P::P5(a)) => go!(v5, d, a,
            Connect { protocol, keep_alive, client_id, clean_session, last_will, login, properties },
            ConnAck { session_present, code, properties },
            Publish { dup, qos, retain, topic, pkid, properties, payload },
            PubAck { pkid, reason, properties }, PubRec { pkid, reason, properties },
            PubRel { pkid, reason, properties }, PubComp { pkid, reason, properties },
            Subscribe { pkid, filters, properties },
            SubAck { pkid, return_codes, properties },
            Unsubscribe { pkid, filters, properties },
            UnsubAck { pkid, reasons, properties },
            Disconnect { reason_code, properties }
        ),
        _ => false,
    }
}

const NUMS: [usize; 12] = [0, 1, 2, 5, 127, 128, 255, 256, 65_535, 65_536, 1 << 31, usize::MAX];
/// error variants with a number, without one, with a packet type; packet types; protocols
const SMALL: u64 = 34;

fn the_errors() -> Vec<(String, Error)> {
    use mqttbytes::Error::*;
    let mut v = vec![];
    macro_rules! plain { ($($n:ident),*) => { $(v.push((stringify!($n).to_string(), $n));)* } }
    plain!(
        UnexpectedConnect, InvalidProtocol, IncorrectPacketFormat, PacketIdZero, SubscriptionIdZero, PayloadSizeIncorrect,
        PayloadTooLong, PayloadRequired, TopicNotUtf8, MalformedPacket, MalformedRemainingLength, EmptySubscription
    );
    for b in 0..=255u8 {
        macro_rules! byte { ($($n:ident),*) => { $(v.push((format!("{} {b}", stringify!($n)), $n(b)));)* } }
        byte!(
            InvalidConnectReturnCode, InvalidReason, InvalidProtocolLevel, InvalidPacketType, InvalidPropertyType,
            InvalidRetainForwardRule, InvalidQoS, InvalidSubscribeReasonCode
        );
    }
    for n in NUMS {
        macro_rules! size { ($($n:ident),*) => { $(v.push((format!("{} {n}", stringify!($n)), $n(n)));)* } }
        size!(PayloadSizeLimitExceeded, BoundaryCrossed, InsufficientBytes);
    }
    for t in packet_types() {
        v.push((format!("NotConnect {}", t as u8), NotConnect(t)));
    }
    v
}

fn packet_types() -> Vec<mqttbytes::PacketType> {
    use mqttbytes::PacketType::*;
    vec![
        Connect, ConnAck, Publish, PubAck, PubRec, PubRel, PubComp, Subscribe, SubAck, Unsubscribe, UnsubAck, PingReq, PingResp,
        Disconnect,
    ]
}

/// Errors, packet types and protocols: equal only to themselves, and printed unlike any other.
fn small_values(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(SMALL);
    c.subject(&i.to_be_bytes());
    c.nontrivial = true;
    if i == 0 {
        c.note(|| "packet types and protocols".into());
        let ts = packet_types();
        call("Debug", || {
            ts.iter().for_each(debugged);
            [0, 1, 2].into_iter().filter_map(|q| mqttbytes::qos(q).ok()).for_each(|q| debugged(&q));
            [mqttbytes::Protocol::V4, mqttbytes::Protocol::V5].iter().for_each(debugged);
        })?;
        for (j, a) in ts.iter().enumerate() {
            ensure!(*a as usize == j + 1, "{a:?} is {}", *a as usize);
            for (k, b) in ts.iter().enumerate() {
                let (e, n) = call("==", || (a == b, a != b))?;
                ensure!(e == (j == k) && n != e, "{a:?} == {b:?} is {e}, != is {n}");
            }
        }
        use mqttbytes::Protocol::{V4 as P4, V5 as P5};
        for (a, b, w) in [(P4, P4, true), (P4, P5, false), (P5, P4, false), (P5, P5, true)] {
            let (e, n) = call("==", || (a == b, a != b))?;
            ensure!(e == w && n != e, "{a:?} == {b:?} is {e}, != is {n}");
        }
        return Ok(());
    }
    c.note(|| format!("errors, part {i}"));
    let all = the_errors();
    let shown = call("Display", || all.iter().map(|(_, e)| (e.to_string(), format!("{e:?}"))).collect::<Vec<_>>())?;
    call("Debug and Display", || {
        for (_, e) in &all {
            debugged(e);
            displayed(e);
        }
    })?;
    for (j, (n, e)) in all.iter().enumerate() {
        if j as u64 % (SMALL - 1) != i - 1 {
            continue;
        }
        let mut d = all[(j + 1) % all.len()].1;
        d.clone_from(e);
        #[allow(clippy::clone_on_copy)]
        let k = e.clone();
        ensure!(d == *e && k == *e, "the clone of {n} is {k:?} or {d:?}");
        for (k, (o, f)) in all.iter().enumerate() {
            let (same, not) = (e == f, e != f);
            ensure!(same == (j == k) && not != same, "{n} == {o} is {same}, != is {not}");
            ensure!(
                j == k || shown[j].0 != shown[k].0 && shown[j].1 != shown[k].1,
                "{n} and {o} both print as {:?} or {:?}",
                shown[j].0,
                shown[j].1
            );
        }
    }
    Ok(())
}

/// Errors with numbers of any size, the other number often next to the one.
fn error_numbers(s: &mut Src, c: &mut Ctx) -> R {
    use mqttbytes::Error::*;
    let of = |s: &mut Src| match s.below(4) {
        0 => s.near_bit(63) as usize,
        1 => *s.pick(&crate::dict::dict().nums) as usize,
        2 => s.below(268_435_456) as usize,
        _ => s.below(1 << 20) as usize * *s.pick(&[1, 10, 1000, 1024, 1_000_000]),
    };
    let n = of(s);
    let m = match s.below(6) {
        0 => n,
        1 => n ^ 1 << s.below(64),
        2 => n.wrapping_add(s.range(1, 9) as usize),
        3 => n.wrapping_sub(s.range(1, 9) as usize),
        4 => n.swap_bytes(),
        _ => of(s),
    };
    let kinds = [PayloadSizeLimitExceeded, BoundaryCrossed, InsufficientBytes];
    let (j, k) = (s.below(3) as usize, if s.chance(3, 4) { 3 } else { s.below(3) as usize });
    let k = if k == 3 { j } else { k };
    let (a, b) = (kinds[j](n), kinds[k](m));
    let same = j == k && n == m;
    c.subject(format!("{j} {n} {k} {m}").as_bytes());
    c.note(|| format!("{a:?} and {b:?}"));
    c.nontrivial = !same;
    let (e, d) = call("==", || (a == b, a != b))?;
    ensure!(e == same && d != e, "error {j} of {n} == error {k} of {m} is {e}, != is {d}");
    let (x, y) = call("Display and Debug", || ((a.to_string(), format!("{a:?}")), (b.to_string(), format!("{b:?}"))))?;
    ensure!((x == y) == same && (x.0 == y.0) == same && (x.1 == y.1) == same, "error {j} of {n} and {k} of {m} print as {x:?} and {y:?}");
    let mut z = b;
    z.clone_from(&a);
    ensure!(z == a, "{a:?} cloned over {b:?} is {z:?}");
    Ok(())
}

/// Fixed headers are equal when they describe the same first byte, header length and frame length.
fn headers(s: &mut Src, c: &mut Ctx) -> R {
    use mqttbytes::FixedHeader;
    let of = |s: &mut Src| (s.byte(), s.range(1, 4) as usize, if s.flag() { s.below(300) } else { s.near_bit(28) } as usize);
    let a = of(s);
    let mut b = a;
    for _ in 0..s.range(0, 2) {
        match s.below(4) {
            0 => b.0 ^= 1 << s.below(8),
            1 => b.1 = s.range(1, 4) as usize,
            2 => b.2 ^= 1 << s.below(28),
            _ => b = of(s),
        }
    }
    c.subject(format!("{a:?} {b:?}").as_bytes());
    c.note(|| format!("{a:?} and {b:?}"));
    c.nontrivial = a != b;
    let (x, y) = call("FixedHeader::new", || (FixedHeader::new(a.0, a.1, a.2), FixedHeader::new(b.0, b.1, b.2)))?;
    let (e, n) = call("==", || (x == y, x != y))?;
    ensure!(e == (a == b) && n != e, "fixed headers {a:?} == {b:?} is {e}, != is {n}");
    call("Debug", || debugged(&x))?;
    let mut z = y;
    z.clone_from(&x);
    ensure!(z == x, "fixed header {a:?} cloned over {b:?} is {z:?}");
    ensure!(x.frame_length() == 1 + a.1 + a.2, "the frame length of {a:?} is {}", x.frame_length());
    // read back from the bytes it describes
    if a.2 < 300 {
        let mut f = vec![a.0];
        let mut v = a.2;
        loop {
            f.push((v % 128) as u8 | if v >= 128 { 0x80 } else { 0 });
            v /= 128;
            if v == 0 {
                break;
            }
        }
        let h = f.len() - 1;
        f.resize(f.len() + a.2, 0);
        let got = call("check", || mqttbytes::check(f.iter(), usize::MAX))?;
        let want = FixedHeader::new(a.0, h, a.2);
        ensure!(got == Ok(want), "check() of {} is {got:?} and not {want:?}", hex(&f[..=h]));
    }
    Ok(())
}

fn qos_order(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(9) as u8;
    let (a, b) = (i / 3, i % 3);
    c.subject(&[i]);
    c.nontrivial = a != b;
    c.note(|| format!("QoS {a} and {b}"));
    let (x, y) = (mqttbytes::qos(a), mqttbytes::qos(b));
    match (x, y) {
        (Ok(x), Ok(y)) => {
            ensure!(x.partial_cmp(&y) == Some(a.cmp(&b)), "QoS {a} against {b}: {:?}", x.partial_cmp(&y));
            ensure!((x == y) == (a == b), "QoS {a} == {b}: {}", x == y);
            ensure!(x as u8 == a, "QoS {a} is {}", x as u8);
            ensure!(x == qos_of(a) && y == qos_of(b), "qos({a}) is {x:?}, qos({b}) is {y:?}");
            Ok(())
        }
        _ => fail(format!("qos({a}) is {x:?}, qos({b}) is {y:?}")),
    }
}

// ---------------------------------------------------------------- property sections

const TYPES: [u8; 9] = [CONNACK, SUBSCRIBE, SUBACK, UNSUBACK, PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT];

fn extract(ty: u8, b: &mut Bytes) -> Result<Result<Props, Error>, Fail> {
    macro_rules! go {
        ($t:ident, $m:ident) => {
            call(concat!("v5::", stringify!($t), "::extract"), || v5::$t::extract(b))?.map(|p| $m(&p))
        };
    }
    Ok(match ty {
        CONNACK => go!(ConnAckProperties, connack_pm),
        SUBSCRIBE => go!(SubscribeProperties, subscribe_pm),
        SUBACK => go!(SubAckProperties, suback_pm),
        UNSUBACK => go!(UnsubAckProperties, unsuback_pm),
        PUBACK => go!(PubAckProperties, puback_pm),
        PUBREC => go!(PubRecProperties, pubrec_pm),
        PUBREL => go!(PubRelProperties, pubrel_pm),
        PUBCOMP => go!(PubCompProperties, pubcomp_pm),
        _ => go!(DisconnectProperties, disconnect_pm),
    })
}

fn section_of(p: &Props) -> (Vec<u8>, Enc) {
    let (b1, mut e) = encode(&M::ConnAck { sp: false, code: 0, props: p.clone() }, V5, 2);
    let _ = b1;
    // without the two bytes in front
    e.body.drain(..2);
    e.marks.retain(|m| m.at >= 2);
    for m in &mut e.marks {
        m.at -= 2;
    }
    (e.body.clone(), e)
}

fn sections(s: &mut Src, c: &mut Ctx, mode: u8) -> R {
    let ty = *s.pick(&TYPES);
    let mut b = match mode {
        0 => section_of(&gen::props(s, ty)).0,
        1 => {
            // also the properties of another packet
            let from = if s.chance(1, 4) { *s.pick(&[CONNECT, CONNACK, PUBLISH, WILL, DISCONNECT]) } else { ty };
            let mut p = gen::props(s, from);
            if s.chance(1, 3) && !p.is_empty() {
                let k = s.below(p.len() as u64) as usize;
                let q = p[k].clone();
                p.push(q);
            }
            let (_, mut e) = section_of(&p);
            let mut b1 = 0;
            for _ in 0..s.weighted(&[2, 5, 2]) {
                gen::mutate(s, &mut b1, &mut e);
            }
            e.body
        }
        _ => {
            let n = s.below(30) as usize;
            let mut v = s.bytes(n);
            if v.len() > 1 {
                if s.flag() {
                    v[0] = s.below(v.len() as u64 + 1) as u8;
                }
                if s.flag() {
                    v[1] = *s.pick(allowed(ty));
                }
            }
            v
        }
    };
    match s.below(4) {
        0 => {}
        1 => {
            let n = s.below(40) as usize;
            let t = s.bytes(n);
            b.extend(t);
        }
        2 => {
            // more properties, or what looks like them
            let t = section_of(&gen::props(s, ty)).0;
            let cut = s.below(3).min(t.len() as u64) as usize;
            b.extend(&t[cut..]);
        }
        _ => {
            let t = gen::topic(s);
            b.extend((t.len() as u16).to_be_bytes());
            b.extend(t.as_bytes());
        }
    }
    section_case(s, c, ty, b, mode == 0)
}

fn large_sections(s: &mut Src, c: &mut Ctx) -> R {
    let ty = *s.pick(&TYPES);
    let mut m = large_ty(s, V5, ty);
    let mut p = m.props_mut().map(std::mem::take).unwrap_or_default();
    let valid = s.flag();
    if !valid && s.flag() {
        let i = s.below(p.len() as u64 + 1) as usize;
        let id = if s.flag() { *s.pick(&ALL_PROPS) } else { s.byte() };
        let v = gen::prop_val(s, prop_kind(id).unwrap_or('b'));
        p.insert(i, (id, v));
    }
    let (mut b, mut e) = section_of(&p);
    if !valid {
        let mut b1 = 0;
        for _ in 0..s.below(3) {
            gen::mutate(s, &mut b1, &mut e);
        }
        b = e.body;
    }
    if s.flag() {
        let t = section_of(&gen::props(s, ty)).0;
        let cut = s.below(3).min(t.len() as u64) as usize;
        b.extend(&t[cut..]);
    }
    section_case(s, c, ty, b, valid)
}

fn tiny_sections(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(9 * 65536);
    let ty = TYPES[(i / 65536) as usize];
    // length 0..3, then two bytes, or an id and a value
    let b = match i & 3 {
        0 => vec![(i >> 2 & 3) as u8, (i >> 4 & 0xff) as u8, (i >> 12 & 0xf) as u8],
        1 => vec![2, (i >> 2 & 0x7f) as u8, (i >> 9 & 0x7f) as u8],
        2 => vec![3, (i >> 2 & 0x3f) as u8, (i >> 8 & 0xff) as u8, 1],
        _ => vec![5, (i >> 2 & 0x3f) as u8, 0, (i >> 8 & 3) as u8, (i >> 10 & 0x3f) as u8, 0, 9, 9],
    };
    section_case(s, c, ty, b, false)
}

fn section_case(s: &mut Src, c: &mut Ctx, ty: u8, b: Vec<u8>, valid: bool) -> R {
    c.note(|| format!("{} properties at the front of {}", TYPE_NAMES[ty as usize], hex(&b)));
    c.subject(&b);
    c.subject(&[ty]);
    c.label(TYPE_NAMES[ty as usize]);
    let pad = s.below(3) as usize * 7;
    let mut whole = vec![0xEE; pad];
    whole.extend(&b);
    let mut x = Bytes::from(whole).slice(pad..);
    let got = extract(ty, &mut x)?;
    let want = section(&b, ty);
    match (&want, &got) {
        (Err(w), Ok(p)) => {
            return fail(clip(format!(
                "{} properties {} are malformed ({w}) but read as {p:?}",
                TYPE_NAMES[ty as usize],
                hex(&b)
            )))
        }
        (_, Err(e)) if more(e) => return fail(format!("the extractor asks for more bytes on {}", hex(&b))),
        (Ok((p, n, soft)), Ok(q)) => {
            c.nontrivial = !p.is_empty();
            c.label(if *soft { "section: tolerated" } else { "section: valid" });
            let mut p = p.clone();
            resolve_props(&mut p, q, ty);
            {
                ensure!(&p == q, "{}", clip(format!("{} reads as {q:?}, it says {p:?}", hex(&b))));
            }
            ensure!(
                x[..] == b[*n..],
                "the section ends after {n} bytes of {}, the extractor leaves {} of the {} bytes behind it",
                hex(&b),
                hex(&x),
                b.len() - n
            );
        }
        (Ok((_, _, false)), Err(e)) => {
            return fail(clip(format!("valid {} properties {} are refused: {e:?}", TYPE_NAMES[ty as usize], hex(&b))))
        }
        (Ok(_), Err(_)) => c.label("section: tolerated"),
        (Err(_), Err(_)) => {
            c.label("section: malformed");
            c.nontrivial = b.len() > 1;
        }
    }
    if valid {
        ensure!(got.is_ok(), "valid section refused");
    }
    Ok(())
}
