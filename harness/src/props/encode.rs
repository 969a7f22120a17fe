//! C12, C13, C14, C22

use super::roundtrip::{blob, huge_of, large, lengths, HUGE, LENGTHS};
use super::*;
use crate::gen;
use bytes::Bytes;
use mqttbytes::{v4, v5, Protocol};

/// Packets that can pad themselves to an exact size (see `grown`).
const GROW: u64 = 34;
const SMALL: u64 = 430;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            rule: "sequences of 1 to 5 (rarely 80) packets of one version written to one buffer with random prior content, capacity and consumed front; every field of the fullest packets in every length of 0 to 1099 and around larger powers of two; packets of several fields of up to 65535 bytes and lists of up to 2 million items, alone and behind each other; packets of up to 268435455 bytes; buffers that hold up to 40 million bytes already; non-trivial: non-empty prefix or at least two packets; distinct by written bytes",
            parts: vec![
                Part::random("v4 sequences", 2_400_000, 24_000_000, |s, c| append(s, c, V4)),
                Part::random("v5 sequences", 2_400_000, 24_000_000, |s, c| append(s, c, V5)),
                Part::random("v4 single packets", 2_400_000, 24_000_000, |s, c| single(s, c, V4)),
                Part::random("v5 single packets", 2_400_000, 24_000_000, |s, c| single(s, c, V5)),
                Part::all("v4, every length", LENGTHS, |s, c| lengths(s, c, V4, |m, c| single_of(&m, false, c, V4))),
                Part::all("v5, every length", LENGTHS, |s, c| lengths(s, c, V5, |m, c| single_of(&m, false, c, V5))),
                Part::random("v4, large packets", 2_000, 40_000, |s, c| several(s, c, V4)),
                Part::random("v5, large packets", 2_000, 40_000, |s, c| several(s, c, V5)),
                Part::random("v4, large buffers", 48, 960, |s, c| behind_much(s, c, V4)),
                Part::random("v5, large buffers", 48, 960, |s, c| behind_much(s, c, V5)),
                Part::all("v4, huge packets", HUGE, |s, c| huge_of(s, c, V4, |m, c| single_of(&m, false, c, V4))).serial(),
                Part::all("v5, huge packets", HUGE, |s, c| huge_of(s, c, V5, |m, c| single_of(&m, false, c, V5))).serial(),
            ],
        },
        Prop {
            id: "C13",
            rule: "valid packets with one part made unencodable (a string or binary field of more than 65535 bytes at any place, or of a packet with large fields and long lists, a publish without packet id, a subscription identifier or a whole packet above 268435455), written behind random prior content and followed by the good packet it was made from; non-trivial: all; distinct by (kind, place, size, prefix)",
            parts: vec![
                Part::random("v4 field too long", 36_000, 360_000, |s, c| too_long(s, c, V4)),
                Part::random("v5 field too long", 108_000, 1_080_000, |s, c| too_long(s, c, V5)),
                Part::random("no packet id", 540_000, 5_400_000, no_pkid),
                Part::random("subscription identifier too big", 540_000, 5_400_000, big_sub_id),
                Part::random("one field of a large packet too long", 2_000, 40_000, large_too_long),
                Part::all("packet too big", 14, too_big).serial(),
                Part::random("encodable packets are not refused", 540_000, 5_400_000, not_refused),
            ],
        },
        Prop {
            id: "C14",
            rule: "packets padded so that a property section, a will property section, a subscription identifier or the remaining length takes an exact value at and around 127/128, 16383/16384, 2097151/2097152 and up to 268435455, for every packet that can grow; non-trivial: the length is within 64 of a boundary; distinct by wire bytes",
            parts: vec![
                Part::all("small sections and packets", GROW * SMALL, |s, c| {
                    let i = s.below(GROW * SMALL);
                    grow_case(i % GROW, (i / GROW) as usize, c)
                }),
                Part::all("around 16384", GROW * 90, |s, c| {
                    let i = s.below(GROW * 90);
                    grow_case(i % GROW, 16384 - 60 + (i / GROW) as usize, c)
                }),
                Part::random("any size", 3_000, 60_000, |s, c| {
                    let k = s.below(GROW);
                    let n = match s.below(3) {
                        0 => s.below(20_000),
                        1 => s.below(70_000),
                        _ => *s.pick(&[65534, 65535, 65536, 65537, 32767, 32768, 131_072]),
                    };
                    grow_case(k, n as usize, c)
                }),
                Part::all("around 2097152", GROW * 6, |s, c| {
                    let i = s.below(GROW * 6);
                    grow_case(i % GROW, 2_097_152 - 3 + (i / GROW) as usize, c)
                }),
                Part::all("up to 268435455", 8, giant).serial(),
                Part::random("subscription identifiers", 300_000, 3_000_000, sub_ids),
                Part::all("subscription identifiers at the boundaries", 4 * 64 * 2, sub_id_edges),
                Part::random("announced lengths", 600_000, 6_000_000, announced),
            ],
        },
        Prop {
            id: "C22",
            rule: "every public constructor, builder and setter with random arguments (incl. empty, non-ASCII, texts of up to 65535 bytes, lists of up to 200000 items, payloads of up to 20 million bytes) and random call sequences, encoded and compared with the packet the arguments describe; non-trivial: all; distinct by (constructor, arguments)",
            parts: vec![
                Part::random("v4", 7_200_000, 72_000_000, |s, c| ctors4(s, c)),
                Part::random("v5", 7_200_000, 72_000_000, |s, c| ctors5(s, c)),
                Part::random("large arguments", 400, 8_000, |s, c| if s.flag() { large4(s, c) } else { large5(s, c) }),
            ],
        },
    ]
}

// ---------------------------------------------------------------- C12

fn buffer(s: &mut Src, max_prefix: u64) -> (BytesMut, Vec<u8>) {
    let n = match s.below(4) {
        0 => 0,
        1 => s.below(16),
        _ if s.chance(1, 60) => *s.pick(&[255, 256, 4095, 4096, 65535, 65536, 70_001]),
        _ => s.below(max_prefix),
    } as usize;
    let p = gen::pattern(s, n);
    let mut b = match s.below(4) {
        0 => BytesMut::new(),
        1 => BytesMut::with_capacity(n),
        2 => BytesMut::with_capacity(n + s.below(64) as usize),
        _ => BytesMut::with_capacity(n + 4096),
    };
    // a buffer whose front was already sent
    let used = if s.chance(1, 3) { s.range(1, 300) as usize } else { 0 };
    if used > 0 {
        b.extend_from_slice(&vec![0xEE; used]);
    }
    b.extend_from_slice(&p);
    if used > 0 {
        let _ = b.split_to(used);
    }
    (b, p)
}

fn append(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (b, prefix) = buffer(s, 300);
    let n = if s.chance(1, 60) { s.range(6, 80) } else { s.range(1, 5) };
    let mut ms: Vec<(M, bool)> = vec![];
    for _ in 0..n {
        let one = match ms.len() as u64 {
            // one of those before, once more
            k if k > 0 && s.chance(1, 4) => ms[if s.flag() { s.below(k) } else { k - 1 } as usize].clone(),
            _ => (gen::model(s, ver), s.flag()),
        };
        ms.push(one);
    }
    if !prefix.is_empty() && s.chance(1, 8) {
        // the buffer holds the packet already
        let p = to_crate(&ms[0].0, ver, ms[0].1).bytes()?;
        return appended(BytesMut::from(&p[..]), p, ms, c, ver);
    }
    appended(b, prefix, ms, c, ver)
}

/// Large packets, alone and behind one another.
fn several(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (b, prefix) = buffer(s, 300);
    let n = s.range(1, 3);
    let mut ms = vec![];
    for _ in 0..n {
        let m = if ms.is_empty() || s.flag() { large(s, ver) } else { gen::model(s, ver) };
        let es = s.flag();
        single_of(&m, es, c, ver)?;
        ms.push((m, es));
    }
    appended(b, prefix, ms, c, ver)
}

/// Packets written to a buffer that holds many millions of bytes.
fn behind_much(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let n = match s.below(5) {
        0 => (1 << s.range(20, 25)) - s.below(20) as usize,
        1 => (1 << s.range(20, 25)) + s.below(70_000) as usize,
        _ => s.range(1_000_000, 40_000_000) as usize,
    };
    let prefix = blob(n);
    let mut b = match s.below(3) {
        0 => BytesMut::new(),
        1 => BytesMut::with_capacity(n + s.below(100) as usize),
        _ => BytesMut::with_capacity(2 * n),
    };
    b.extend_from_slice(&prefix);
    let ms = (0..s.range(1, 2)).map(|_| (gen::model(s, ver), s.flag())).collect();
    appended(b, prefix, ms, c, ver)
}

fn appended(mut b: BytesMut, prefix: Vec<u8>, ms: Vec<(M, bool)>, c: &mut Ctx, ver: Ver) -> R {
    let n = ms.len();
    c.nontrivial = n > 1 || !prefix.is_empty();
    c.note(|| format!("{} prefix {} then {ms:?}", vname(ver), hex(&prefix)));
    let mut expect = prefix.clone();
    for (m, es) in &ms {
        c.label(TYPE_NAMES[m.ty() as usize]);
        let p = to_crate(m, ver, *es);
        let alone = p.bytes()?;
        let before = b.len();
        let k = match p.write(&mut b)? {
            Ok(k) => k,
            Err(e) => return fail(format!("writing {m:?} to a buffer with {before} bytes fails: {e:?}")),
        };
        expect.extend_from_slice(&alone);
        ensure!(
            b[..] == expect[..],
            "writing {m:?} after {before} bytes leaves {} where {} is right",
            hex(&b),
            hex(&expect)
        );
        ensure!(k == b.len() - before, "write of {m:?} returns {k} but appended {} bytes", b.len() - before);
    }
    c.subject(&expect[prefix.len()..]);
    // the whole run reads back
    let mut st = BytesMut::from(&b[prefix.len()..]);
    for (m, _) in &ms {
        match read(&mut st, usize::MAX, ver)? {
            Ok(p) => same("reading the buffer back", &p.model(), &m.clone().canon(ver))?,
            Err(e) => return fail(format!("reading {} back: {e:?} at {m:?}", hex(&b))),
        }
    }
    ensure!(st.is_empty(), "{} bytes left after reading everything back", st.len());
    Ok(())
}

fn single(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let m = gen::model(s, ver);
    let es = s.flag();
    single_of(&m, es, c, ver)
}

/// Return value, reported lengths.
fn single_of(m: &M, es: bool, c: &mut Ctx, ver: Ver) -> R {
    c.nontrivial = gen::nontrivial(m);
    c.label(TYPE_NAMES[m.ty() as usize]);
    c.note(|| format!("{} {m:?} empty property sets {}", vname(ver), if es { "present" } else { "absent" }));
    let p = to_crate(m, ver, es);
    let mut b = BytesMut::new();
    let k = match p.write(&mut b)? {
        Ok(k) => k,
        Err(e) => return fail(format!("writing {m:?}: {e:?}")),
    };
    c.subject(&b);
    ensure!(k == b.len(), "write of {m:?} returns {k} but appended {} bytes", b.len());
    let Framing::Frame(_, n) = framing(&b, usize::MAX) else {
        return fail(format!("{} is not a frame", hex(&b)));
    };
    if let Some(l) = call("len", || p.public_len())? {
        ensure!(l == n, "len() of {m:?} is {l}, its frame has remaining length {n}");
    }
    if let M::Subscribe { filters, .. } = m {
        let got: Vec<usize> = call("filter len", || match &p {
            P::P4(v4::Packet::Subscribe(x)) => x.filters.iter().map(|f| f.len()).collect(),
            P::P5(v5::Packet::Subscribe(x)) => x.filters.iter().map(|f| f.len()).collect(),
            _ => vec![],
        })?;
        for (l, f) in got.into_iter().zip(filters) {
            ensure!(l == f.0.len() + 3, "len() of the filter {f:?} is {l}, on the wire it has {} bytes", f.0.len() + 3);
        }
    }
    if let Some(l) = call("properties len", || p.public_props_len())? {
        let mut e = 0;
        for (_, v) in m.props().unwrap() {
            e += 1 + match v {
                PVal::U8(_) => 1,
                PVal::U16(_) => 2,
                PVal::U32(_) => 4,
                PVal::Var(x) => var(*x as usize).len(),
                PVal::Str(x) => 2 + x.len(),
                PVal::Bin(x) => 2 + x.len(),
                PVal::Pair(a, b) => 4 + a.len() + b.len(),
            };
        }
        ensure!(l == e, "properties len() of {m:?} is {l}, the section is {e}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

/// `p` is refused and leaves no trace: not in the buffer, and not in how the good packet `next` is written.
fn refused(p: &P, next: Option<&P>, s: &mut Src, c: &mut Ctx, what: &str) -> Result<Error, Fail> {
    let (mut b, prefix) = buffer(s, 60);
    let ping = if let P::P4(_) = p { P::P4(v4::Packet::PingReq) } else { P::P5(v5::Packet::PingReq) };
    let next = next.unwrap_or(&ping);
    let want = next.bytes()?;
    c.nontrivial = true;
    c.subject(what.as_bytes());
    c.subject(&prefix);
    c.note(|| format!("{what}, behind {} bytes", prefix.len()));
    match p.write(&mut b)? {
        Ok(n) => fail(format!("{what}: write reports success ({n})")),
        Err(e) => {
            ensure!(
                b[..] == prefix[..],
                "{what}: write fails ({e:?}) but leaves {} bytes in the buffer instead of {}: {}",
                b.len(),
                prefix.len(),
                hex(&b)
            );
            // and the buffer still works
            match next.write(&mut b)? {
                Ok(_) => {}
                r => return fail(format!("{what}: then {next:?} gives {r:?}")),
            }
            ensure!(
                b[..prefix.len()] == prefix[..] && b[prefix.len()..] == want[..],
                "{what}: then {next:?} comes out as {} behind {}, it should be {} behind {}",
                hex(&b[prefix.len().min(b.len())..]),
                hex(&b[..prefix.len().min(b.len())]),
                hex(&want),
                hex(&prefix)
            );
            Ok(e)
        }
    }
}

/// Every string and binary field of a packet, in order.
pub(super) fn visit(m: &mut M, f: &mut dyn FnMut(&'static str, Field)) {
    fn props(p: &mut Props, f: &mut dyn FnMut(&'static str, Field)) {
        for (_, v) in p {
            match v {
                PVal::Str(s) => f("property string", Field::S(s)),
                PVal::Bin(b) => f("property binary", Field::B(b)),
                PVal::Pair(a, b) => {
                    f("property key", Field::S(a));
                    f("property value", Field::S(b));
                }
                _ => {}
            }
        }
    }
    match m {
        M::Connect { client_id, will, user, pass, props: p, .. } => {
            f("client id", Field::S(client_id));
            if let Some(w) = will {
                f("will topic", Field::S(&mut w.topic));
                f("will message", Field::B(&mut w.msg));
                props(&mut w.props, f);
            }
            if let Some(u) = user {
                f("user name", Field::S(u));
            }
            if let Some(u) = pass {
                f("password", Field::S(u));
            }
            props(p, f);
        }
        M::Publish { topic, props: p, .. } => {
            f("topic", Field::S(topic));
            props(p, f);
        }
        M::Subscribe { filters, props: p, .. } => {
            for (x, _) in filters {
                f("filter", Field::S(x));
            }
            props(p, f);
        }
        M::Unsubscribe { filters, props: p, .. } => {
            for x in filters {
                f("filter", Field::S(x));
            }
            props(p, f);
        }
        m => {
            if let Some(p) = m.props_mut() {
                props(p, f)
            }
        }
    }
}

pub(super) enum Field<'a> {
    S(&'a mut String),
    B(&'a mut Vec<u8>),
}

/// A packet with a field that is too long, from a good one, with what was done to it.
pub(super) fn spoiled(s: &mut Src, ver: Ver) -> (M, M, &'static str, usize, usize) {
    let ty = if ver == V4 {
        *s.pick(&[CONNECT, PUBLISH, SUBSCRIBE, UNSUBSCRIBE])
    } else {
        *s.pick(&[
            CONNECT, CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE,
            UNSUBACK, DISCONNECT,
        ])
    };
    let mut m = gen::model_of(s, ver, ty);
    let mut n = 0;
    visit(&mut m, &mut |_, _| n += 1);
    if n == 0 {
        // give it one
        let id = if ty == UNSUBSCRIBE || s.flag() || !allowed(ty).contains(&31) { 38 } else { 31 };
        let v = gen::prop_val(s, prop_kind(id).unwrap());
        m.props_mut().unwrap().push((id, v));
    }
    spoil(s, m).unwrap()
}

/// One field of the packet, if it has any, grows too long.
fn spoil(s: &mut Src, mut m: M) -> Option<(M, M, &'static str, usize, usize)> {
    let mut n = 0;
    visit(&mut m, &mut |_, _| n += 1);
    if n == 0 {
        return None;
    }
    let good = m.clone();
    let at = s.below(n);
    let size = *s.pick(&[65536usize, 65537, 65538, 65600, 70000, 131_071, 131_072, 131_077, 200_000]);
    let fill = *s.pick(&["a", "é", "\u{1}"]);
    let mut i = 0;
    let mut place = "";
    visit(&mut m, &mut |name, f| {
        if i == at {
            place = name;
            match f {
                Field::S(x) => {
                    let mut t = fill.repeat(size / fill.len());
                    while t.len() < size {
                        t.push('x');
                    }
                    *x = t;
                }
                Field::B(x) => *x = vec![0x5a; size],
            }
        }
        i += 1;
    });
    Some((good, m, place, at as usize, size))
}

fn too_long(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (good, m, place, at, size) = spoiled(s, ver);
    c.label(place);
    let es = s.flag();
    let (p, good) = (to_crate(&m, ver, es), to_crate(&good, ver, es));
    let what = format!("{} {} with a {place} (field {at}) of {size} bytes", vname(ver), TYPE_NAMES[m.ty() as usize]);
    refused(&p, Some(&good), s, c, &what).map(|_| ())
}

/// Any one field of a large packet, or any one of thousands, is too long.
fn large_too_long(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let m = large(s, ver);
    if encode_frame(&m, ver, 0).len() > 1_000_000 {
        return Ok(());
    }
    let Some((good, m, place, at, size)) = spoil(s, m) else { return Ok(()) };
    c.label(place);
    let (p, good) = (to_crate(&m, ver, false), to_crate(&good, ver, false));
    let what = format!("large {} {} with a {place} (field {at}) of {size} bytes", vname(ver), TYPE_NAMES[m.ty() as usize]);
    refused(&p, Some(&good), s, c, &what).map(|_| ())
}

fn no_pkid(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let mut m = gen::model_of(s, ver, PUBLISH);
    if let M::Publish { qos, pkid, .. } = &mut m {
        if *qos == 0 {
            *qos = s.range(1, 2) as u8;
        }
        *pkid = 0;
    }
    let es = s.flag();
    let p = to_crate(&m, ver, es);
    let what = format!("{} publish without packet id: {m:?}", vname(ver));
    if let M::Publish { pkid, .. } = &mut m {
        *pkid = gen::num16(s);
    }
    let good = to_crate(&m, ver, es);
    refused(&p, Some(&good), s, c, &what).map(|_| ())
}

fn big_sub_id(s: &mut Src, c: &mut Ctx) -> R {
    let ty = *s.pick(&[PUBLISH, SUBSCRIBE]);
    let m = gen::model_of(s, V5, ty);
    let es = s.flag();
    let mut p = to5(&m, es);
    let good = P::P5(p.clone());
    let id = match s.below(3) {
        0 => 268_435_456usize,
        1 => *s.pick(&[268_435_457, 1 << 29, 1 << 32, (1 << 32) + 1, usize::MAX, 1 << 35, 1 << 28, u32::MAX as usize]),
        _ => s.range(268_435_456, u64::MAX - 1) as usize,
    };
    match &mut p {
        v5::Packet::Publish(x) => {
            let pr = x.properties.get_or_insert_with(|| publish_p(&vec![], true).unwrap());
            let at = s.below(pr.subscription_identifiers.len() as u64 + 1) as usize;
            pr.subscription_identifiers.insert(at, id);
        }
        v5::Packet::Subscribe(x) => {
            x.properties.get_or_insert_with(|| subscribe_p(&vec![], true).unwrap()).id = Some(id);
        }
        _ => unreachable!(),
    }
    c.label(TYPE_NAMES[ty as usize]);
    let what = format!("v5 {} with subscription identifier {id}: {m:?}", TYPE_NAMES[ty as usize]);
    refused(&P::P5(p), Some(&good), s, c, &what).map(|_| ())
}

fn pair(n: usize) -> (String, String) {
    ("k".repeat(n / 2), "v".repeat(n - n / 2))
}

/// Packets whose remaining length is just above, or well above, what MQTT can express.
fn too_big(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(14);
    c.label("remaining length too large");
    // 4096 pairs of 65536 + 5 bytes: 268455936 bytes of properties
    let ups: Vec<(String, String)> = if i >= 8 { (0..4096).map(|_| pair(65536)).collect() } else { vec![] };
    let (what, p) = match i {
        0 => ("v4 publish, 268435456 bytes", {
            let mut x = v4::Publish::from_bytes("t", QoS0, Bytes::from(vec![7; MAX_VAR + 1 - 3]));
            x.retain = true;
            P::P4(v4::Packet::Publish(x))
        }),
        1 => ("v5 publish, 268435456 bytes", {
            P::P5(v5::Packet::Publish(v5::Publish::from_bytes("t", QoS0, Bytes::from(vec![7; MAX_VAR + 1 - 4]))))
        }),
        2 => ("v4 subscribe with too many filters", {
            let f = v4::SubscribeFilter { path: "f".repeat(65532), qos: QoS1 };
            P::P4(v4::Packet::Subscribe(v4::Subscribe { pkid: 1, filters: vec![f; 4097] }))
        }),
        3 => ("v4 unsubscribe with too many topics", {
            P::P4(v4::Packet::Unsubscribe(v4::Unsubscribe { pkid: 1, topics: vec!["f".repeat(65533); 4097] }))
        }),
        4 => ("v4 suback with too many codes", {
            P::P4(v4::Packet::SubAck(v4::SubAck {
                pkid: 1,
                return_codes: vec![v4::SubscribeReasonCode::Failure; MAX_VAR - 1],
            }))
        }),
        5 => ("v5 suback with too many codes", {
            P::P5(v5::Packet::SubAck(v5::SubAck {
                pkid: 1,
                return_codes: vec![v5::SubscribeReasonCode::QoS0; MAX_VAR - 2],
                properties: None,
            }))
        }),
        6 => ("v5 subscribe with too many filters", {
            let f = v5::SubscribeFilter::new("f".repeat(65532), QoS1);
            P::P5(v5::Packet::Subscribe(v5::Subscribe { pkid: 1, filters: vec![f; 4097], properties: None }))
        }),
        7 => ("v5 unsuback with too many codes", {
            P::P5(v5::Packet::UnsubAck(v5::UnsubAck {
                pkid: 1,
                reasons: vec![v5::UnsubAckReason::Success; MAX_VAR - 2],
                properties: None,
            }))
        }),
        8 => ("v5 connect with too many user properties", {
            let mut x = v5::Connect::new("id");
            let mut pr = connect_p(&vec![], true).unwrap();
            pr.user_properties = ups;
            x.properties = Some(pr);
            P::P5(v5::Packet::Connect(x))
        }),
        9 => ("v5 connect with too many will user properties", {
            let mut x = v5::Connect::new("id");
            let mut pr = will_p(&vec![], true).unwrap();
            pr.user_properties = ups;
            let mut w = v5::LastWill::new("t", "m", QoS1, false);
            w.properties = Some(pr);
            x.last_will = Some(w);
            P::P5(v5::Packet::Connect(x))
        }),
        10 => ("v5 puback with too many user properties", {
            let mut x = v5::PubAck::new(1);
            x.properties = Some(v5::PubAckProperties { reason_string: None, user_properties: ups });
            P::P5(v5::Packet::PubAck(x))
        }),
        11 => ("v5 disconnect with too many user properties", {
            let mut x = v5::Disconnect::new();
            let mut pr = v5::DisconnectProperties::new();
            pr.user_properties = ups;
            x.properties = Some(pr);
            P::P5(v5::Packet::Disconnect(x))
        }),
        12 => ("v5 connack with too many user properties", {
            let mut x = v5::ConnAck::new(v5::ConnectReturnCode::Success, false);
            let mut pr = v5::ConnAckProperties::new();
            pr.user_properties = ups;
            x.properties = Some(pr);
            P::P5(v5::Packet::ConnAck(x))
        }),
        _ => ("v5 unsubscribe with too many user properties", {
            let mut x = v5::Unsubscribe::new("t");
            x.pkid = 1;
            x.properties = Some(v5::UnsubscribeProperties { user_properties: ups });
            P::P5(v5::Packet::Unsubscribe(x))
        }),
    };
    refused(&p, None, s, c, what).map(|_| ())
}

#[allow(non_upper_case_globals)]
const QoS0: mqttbytes::QoS = mqttbytes::QoS::AtMostOnce;
#[allow(non_upper_case_globals)]
const QoS1: mqttbytes::QoS = mqttbytes::QoS::AtLeastOnce;

/// The other side: fields of exactly 65535 bytes and plain packets are written.
fn not_refused(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let mut m = gen::model(s, ver);
    if s.chance(1, 40) {
        let mut n = 0;
        visit(&mut m, &mut |_, _| n += 1);
        if n > 0 {
            let at = s.below(n);
            let mut i = 0;
            visit(&mut m, &mut |_, f| {
                if i == at {
                    match f {
                        Field::S(x) => *x = "x".repeat(65535),
                        Field::B(x) => *x = vec![1; 65535],
                    }
                }
                i += 1;
            });
            c.label("a field of 65535 bytes");
        }
    }
    let (mut b, prefix) = buffer(s, 60);
    c.nontrivial = true;
    let want = encode_frame(&m, ver, 0);
    c.subject(&want);
    c.note(|| format!("{} {m:?} behind {} bytes", vname(ver), prefix.len()));
    let es = s.flag();
    match to_crate(&m, ver, es).write(&mut b)? {
        Ok(_) => must_read(&b[prefix.len()..], ver, &m.canon(ver)),
        Err(e) => fail(clip(format!("write refuses the encodable {m:?}: {e:?}"))),
    }
}

// ---------------------------------------------------------------- C14

/// Packet `k`, padded so that the length in question is exactly `n` where that is possible:
/// 0..=13 the property section of type k (0: the will), 14.. the remaining length.
fn grown(k: u64, n: usize) -> Option<(M, Ver)> {
    use super::roundtrip::{minimal, set_props};
    // properties of exactly n bytes
    fn section(n: usize) -> Option<Props> {
        let mut left = n;
        let mut v: Props = vec![];
        const BIG: usize = 65535 * 2 + 5;
        while left > BIG + 5 {
            v.push((38, PVal::Pair("k".repeat(65535), "v".repeat(65535))));
            left -= BIG;
        }
        if left > 0 {
            if left < 5 {
                return None;
            }
            let (a, b) = if left > BIG {
                // split into two pairs
                let first = left / 2;
                let (a, b) = pair(first - 5);
                v.push((38, PVal::Pair(a, b)));
                pair(left - first - 5)
            } else {
                pair(left - 5)
            };
            v.push((38, PVal::Pair(a, b)));
        }
        Some(v)
    }
    fn strings(n: usize, over: usize) -> Option<Vec<String>> {
        // strings with 2 + over bytes each besides their text, n bytes in all
        let unit = 65535 + 2 + over;
        let mut left = n;
        let mut v = vec![];
        while left > unit {
            let take = unit.min(left - (3 + over));
            v.push("f".repeat(take - 2 - over));
            left -= take;
        }
        if left < 3 + over {
            return None;
        }
        v.push("g".repeat(left - 2 - over));
        Some(v)
    }
    let ty = (k % 14) as u8;
    if k < 14 {
        // property section
        let t = if ty == 13 { DISCONNECT } else { ty };
        if t == PINGREQ {
            return None;
        }
        let mut m = minimal(t);
        set_props(&mut m, t, section(n)?);
        return Some((m, V5));
    }
    let ver = if k < 24 { V4 } else { V5 };
    let over_p = if ver == V5 { 1 } else { 0 };
    let m = match (k - 14) % 10 {
        0 => M::Publish {
            dup: false,
            qos: 0,
            retain: false,
            topic: "t".into(),
            pkid: 0,
            props: vec![],
            payload: vec![0x33; n.checked_sub(3 + over_p)?],
        },
        1 => M::Publish {
            dup: true,
            qos: 2,
            retain: true,
            topic: "t".into(),
            pkid: 0x0901,
            props: vec![],
            payload: vec![0x33; n.checked_sub(5 + over_p)?],
        },
        2 => M::Subscribe {
            pkid: 9,
            props: vec![],
            filters: strings(n.checked_sub(2 + over_p)?, 1)?.into_iter().map(|f| (f, 1)).collect(),
        },
        3 => M::SubAck { pkid: 9, props: vec![], codes: vec![1; n.checked_sub(2 + over_p).filter(|x| *x > 0)?] },
        4 => M::Unsubscribe { pkid: 9, props: vec![], filters: strings(n.checked_sub(2 + over_p)?, 0)? },
        5 => {
            let mut m = minimal(CONNECT);
            if let M::Connect { client_id, level, .. } = &mut m {
                *level = if ver == V4 { 4 } else { 5 };
                *client_id = "i".repeat(n.checked_sub(12 + over_p).filter(|x| (1..=65535).contains(x))?);
            }
            m
        }
        6 => {
            let mut m = minimal(0);
            if let M::Connect { will: Some(w), level, .. } = &mut m {
                *level = if ver == V4 { 4 } else { 5 };
                w.msg = vec![9; n.checked_sub(18 + 2 * over_p).filter(|x| *x <= 65535)?];
            }
            m
        }
        7 if ver == V5 => M::UnsubAck { pkid: 9, props: vec![], codes: vec![0; n.checked_sub(3).filter(|x| *x > 0)?] },
        7 => return None,
        _ if ver == V4 => return None,
        r => {
            // whole acks and disconnects of an exact remaining length (the property length's own
            // width counts)
            let t = if r == 8 { PUBACK } else { DISCONNECT };
            let fixed = if r == 8 { 3 } else { 1 };
            let rest = n.checked_sub(fixed)?;
            let mut found = None;
            for w in 1..=4 {
                if let Some(l) = rest.checked_sub(w) {
                    if l > 0 && var(l).len() == w {
                        found = Some(l);
                    }
                }
            }
            let mut m = minimal(t);
            set_props(&mut m, t, section(found?)?);
            m
        }
    };
    Some((m, ver))
}

fn grow_case(k: u64, n: usize, c: &mut Ctx) -> R {
    let Some((m, ver)) = grown(k, n) else {
        c.label("no packet of this size");
        return Ok(());
    };
    c.label(if k < 14 { "property section" } else { "remaining length" });
    c.label(TYPE_NAMES[m.ty() as usize]);
    c.note(|| {
        format!("{} {} with a {} of {n} bytes", vname(ver), TYPE_NAMES[m.ty() as usize],
            if k < 14 { "property section" } else { "remaining length" })
    });
    sized_case(m, ver, n, c)
}

fn sized_case(m: M, ver: Ver, n: usize, c: &mut Ctx) -> R {
    c.nontrivial = [128usize, 16384, 65536, 2_097_152, 268_435_456].iter().any(|b| n.abs_diff(*b) <= 64);
    let p = to_crate(&m, ver, false);
    let mut b = BytesMut::new();
    match p.write(&mut b)? {
        Ok(k) => ensure!(k == b.len(), "write returns {k} for {} bytes", b.len()),
        Err(e) => return fail(format!("write refuses a {} of size {n}: {e:?}", TYPE_NAMES[m.ty() as usize])),
    }
    c.subject(&b);
    let Framing::Frame(h, rem) = framing(&b, usize::MAX) else {
        return fail(format!("size {n}: encoded bytes {} (of {}) are not a frame", hex(&b), b.len()));
    };
    ensure!(h + rem == b.len(), "size {n}: frame of {} bytes announces {}", b.len(), h + rem);
    ensure!(h == 1 + var(rem).len(), "size {n}: remaining length {rem} in {} bytes", h - 1);
    if let Some(l) = call("len", || p.public_len())? {
        ensure!(l == rem, "size {n}: len() is {l}, remaining length is {rem}");
    }
    // the header alone names what is missing
    let total = b.len();
    for cut in [h.min(total - 1), total - 1] {
        match call("check", || mqttbytes::check(b[..cut].iter(), usize::MAX))? {
            Err(Error::InsufficientBytes(x)) => ensure!(
                x >= 1 && x <= total - cut && (cut < h || x == total - cut),
                "size {n}: check of the first {cut} of {total} bytes asks for {x}"
            ),
            r => return fail(format!("size {n}: check of the first {cut} of {total} bytes is {r:?}")),
        }
    }
    match call("check", || mqttbytes::check(b.iter(), rem))? {
        Ok(f) => ensure!(f.frame_length() == total, "size {n}: frame_length is {}", f.frame_length()),
        Err(e) => return fail(format!("size {n}: check with limit {rem} refuses: {e:?}")),
    }
    if rem > 0 {
        match call("check", || mqttbytes::check(b.iter(), rem - 1))? {
            Err(Error::PayloadSizeLimitExceeded(x)) if x == rem => {}
            r => return fail(format!("size {n}: check with limit {} is {r:?}", rem - 1)),
        }
    }
    strictly(&b, ver, &m.clone().canon(ver))?;
    let want = m.canon(ver);
    let mut st = b;
    match read(&mut st, rem, ver)? {
        Err(e) => fail(format!("size {n}: reader rejects: {e:?}")),
        Ok(q) => {
            ensure!(q.model() == want, "size {n}: decoded packet differs");
            ensure!(st.is_empty(), "size {n}: {} bytes left", st.len());
            Ok(())
        }
    }
}

fn giant(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(8);
    let n = [268_435_455usize, 268_435_454, 268_435_455, 134_217_728][(i / 2) as usize];
    let ver = if i % 2 == 0 { V4 } else { V5 };
    let k = match i / 2 {
        0 | 1 => 0,
        2 => 2,
        _ => 4,
    };
    let Some((m, ver)) = grown(14 + k + if ver == V5 { 10 } else { 0 }, n) else { return Ok(()) };
    c.label("giant");
    c.note(|| format!("{} {} with remaining length {n}", vname(ver), TYPE_NAMES[m.ty() as usize]));
    sized_case(m, ver, n, c)
}

fn sub_id_case(id: usize, ty: u8, extra: Props, c: &mut Ctx) -> R {
    let mut m = super::roundtrip::minimal(ty);
    let mut p = extra;
    p.push((11, PVal::Var(id as u32)));
    super::roundtrip::set_props(&mut m, ty, p);
    c.nontrivial = true;
    c.note(|| format!("subscription identifier {id}: {m:?}"));
    let p = to_crate(&m, V5, false);
    let b = p.bytes()?;
    c.subject(&b);
    let want = m.canon(V5);
    strictly(&b, V5, &want)?;
    if let Some(l) = call("len", || p.public_len())? {
        let Framing::Frame(_, rem) = framing(&b, usize::MAX) else { unreachable!() };
        ensure!(l == rem, "subscription identifier {id}: len() {l}, remaining length {rem}");
    }
    must_read(&b, V5, &want)
}

fn sub_ids(s: &mut Src, c: &mut Ctx) -> R {
    let ty = *s.pick(&[PUBLISH, SUBSCRIBE]);
    let bits = s.range(1, 28);
    let id = s.range(1, (1 << bits) - 1) as usize;
    let mut extra = vec![];
    for _ in 0..s.below(3) {
        extra.push((38, PVal::Pair(gen::text(s), gen::text(s))));
    }
    if ty == PUBLISH {
        for _ in 0..s.below(4) {
            extra.push((11, PVal::Var(gen::num_var(s))));
        }
    }
    sub_id_case(id, ty, extra, c)
}

fn sub_id_edges(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(4 * 64 * 2);
    let (e, i) = (i % 4, i / 4);
    let (d, t) = (i % 64, i / 64);
    let b = [128i64, 16_384, 2_097_152, 268_435_456][e as usize];
    let id = b + d as i64 - 32;
    if !(1..=268_435_455).contains(&id) {
        return Ok(());
    }
    sub_id_case(id as usize, if t == 0 { PUBLISH } else { SUBSCRIBE }, vec![], c)
}

/// Headers alone: `check` against the variable byte integer rules, for announced lengths no test
/// would materialise.
fn announced(s: &mut Src, c: &mut Ctx) -> R {
    let bits = s.range(0, 28);
    let n = match s.below(3) {
        0 => *s.pick(&[0usize, 127, 128, 16383, 16384, 2_097_151, 2_097_152, 268_435_455, 268_435_454]),
        1 => s.below(1 << bits) as usize,
        _ => s.below(300) as usize,
    };
    let b1 = s.byte();
    let mut f = vec![b1];
    let w = if s.chance(1, 4) { s.range(1, 4) as usize } else { 1 };
    f.extend(var_wide(n, w));
    let h = f.len();
    let have = s.below(40).min(n as u64) as usize;
    f.extend(std::iter::repeat(0x41).take(have));
    let max = match s.below(4) {
        0 => usize::MAX,
        1 => n,
        2 => n.saturating_sub(1),
        _ => s.below(1 << 28) as usize,
    };
    c.nontrivial = n > 127;
    c.subject(&f);
    c.note(|| format!("{} limit {max}", hex(&f)));
    let r = call("check", || mqttbytes::check(f.iter(), max))?;
    let ok = match (&r, framing(&f, max)) {
        (Ok(x), Framing::Frame(a, b)) => x.frame_length() == a + b,
        (Err(Error::InsufficientBytes(x)), Framing::More(k)) => *x >= 1 && *x == k,
        (Err(Error::PayloadSizeLimitExceeded(x)), Framing::TooLarge(k)) => *x == k,
        _ => false,
    };
    ensure!(ok, "check of {} (length field {} bytes for {n}, limit {max}): {r:?}", hex(&f), h - 1);
    Ok(())
}

// ---------------------------------------------------------------- C22

fn built(p: P, want: M, ver: Ver, c: &mut Ctx, name: &'static str) -> R {
    c.label(name);
    c.nontrivial = true;
    c.note(|| format!("{} {name}: {want:?}", vname(ver)));
    c.subject(name.as_bytes());
    let mut b = BytesMut::new();
    same(name, &p.model(), &want.clone().canon(ver))?;
    match p.write(&mut b)? {
        Ok(_) => {
            let f = encode_frame(&want, ver, 0);
            c.subject(&f);
            if ver == V4 {
                ensure!(b[..] == f[..], "{name} encodes as {}, its arguments describe {}", hex(&b), hex(&f));
                Ok(())
            } else {
                match decode(&b, V5) {
                    Verdict::Accept(m) | Verdict::Lenient(Some(m), _) => {
                        same(&format!("{name} encodes as {}", hex(&b)), &m.canon(V5), &want.canon(V5))
                    }
                    v => fail(format!("{name} encodes as {}: {v:?}", hex(&b))),
                }
            }
        }
        Err(e) => fail(format!("{name}: packet of {want:?} cannot be encoded: {e:?}")),
    }
}

/// A valid but possibly empty text.
fn id_text(s: &mut Src) -> String {
    gen::text(s)
}

fn pattern(s: &mut Src, sizes: &[usize]) -> Vec<u8> {
    let (n, k) = (*s.pick(sizes), s.byte());
    (0..n).map(|i| (i as u8).wrapping_mul(31) ^ (i >> 8) as u8 ^ k).collect()
}

/// The bytes as any of the ways a program can come to hold them.
fn given_bytes(s: &mut Src, v: &[u8]) -> Bytes {
    match s.below(6) {
        0 => Bytes::copy_from_slice(v),
        1 => BytesMut::from(v).freeze(),
        2 | 3 => {
            // a part of something larger, at any offset
            let (before, behind) = (s.below(20) as usize, s.below(20) as usize);
            let mut all = vec![0xAA; before];
            all.extend_from_slice(v);
            all.resize(before + v.len() + behind, 0x55);
            let all = if s.flag() { Bytes::from(all) } else { BytesMut::from(&all[..]).freeze() };
            all.slice(before..before + v.len())
        }
        4 => {
            // what is left of a buffer whose front was taken
            let mut b = BytesMut::from(&[1u8; 9][..]);
            b.extend_from_slice(v);
            let _ = b.split_to(9);
            b.freeze()
        }
        _ => Bytes::from(v.to_vec()),
    }
}

fn publish_m(topic: &str, qos: u8, pkid: u16, payload: &[u8]) -> M {
    M::Publish {
        dup: false,
        qos,
        retain: false,
        topic: topic.into(),
        pkid,
        props: vec![],
        payload: payload.to_vec(),
    }
}

macro_rules! publish_ctor {
    ($m:ident, $wrap:expr, $ver:expr, $s:expr, $c:expr) => {{
        let (s, c) = ($s, $c);
        let t = gen::topic(s);
        let q = s.below(3) as u8;
        let payload = match s.chance(1, 40) {
            true => pattern(s, &[65_530, 65_535, 65_536, 65_537, 70_000, 131_072, 300_000]),
            false => gen::bin(s),
        };
        let a = match s.below(5) {
            0 => $m::Publish::new(t.as_str(), qos_of(q), &payload[..]),
            1 => $m::Publish::new(t.clone(), qos_of(q), payload.clone().into_boxed_slice()),
            2 => match String::from_utf8(payload.clone()) {
                Ok(p) if s.flag() => $m::Publish::new(t.clone(), qos_of(q), p),
                Ok(p) => $m::Publish::new(t.clone(), qos_of(q), p.as_str()),
                Err(_) => $m::Publish::new(t.clone(), qos_of(q), payload.clone()),
            },
            3 => {
                // with room to spare
                let mut p = Vec::with_capacity(payload.len() * 2 + 100);
                p.extend_from_slice(&payload);
                $m::Publish::new(t.clone(), qos_of(q), p)
            }
            _ => $m::Publish::new(t.clone(), qos_of(q), payload.clone()),
        };
        let given = given_bytes(s, &payload);
        let b = $m::Publish::from_bytes(t.as_str(), qos_of(q), given.clone());
        ensure!(given[..] == payload[..], "from_bytes changed its argument");
        drop(given);
        ensure!(a == b, "Publish::new and from_bytes of ({t:?}, {q}, {payload:?}) differ");
        ensure!(
            !a.dup && !a.retain && a.pkid == 0 && a.topic == t && a.qos == qos_of(q) && a.payload[..] == payload[..],
            "Publish::new({t:?}, {q}, {payload:?}) is {a:?} (dup {} pkid {} payload {:?})",
            a.dup,
            a.pkid,
            a.payload
        );
        let mut a = a;
        if q > 0 {
            a.pkid = gen::num16(s);
        }
        let want = publish_m(&t, q, a.pkid, &payload);
        built($wrap($m::Packet::Publish(a)), want, $ver, c, "Publish::new / from_bytes")
    }};
}

macro_rules! connect_ctor {
    ($m:ident, $wrap:expr, $ver:expr, $level:expr, $s:expr, $c:expr) => {{
        let (s, c) = ($s, $c);
        let id = id_text(s);
        let mut x = $m::Connect::new(id.clone());
        ensure!(
            x.keep_alive == 10 && x.clean_session && x.last_will.is_none() && x.login.is_none() && x.client_id == id,
            "Connect::new({id:?}) is {x:?}"
        );
        let mut user = None;
        let mut pass = None;
        for _ in 0..s.below(3) {
            let (u, p) = (id_text(s), id_text(s));
            let r = x.set_login(u.clone(), p.clone());
            let back: &$m::Connect = r;
            ensure!(back.login == Some($m::Login::new(u.clone(), p.clone())), "set_login({u:?}, {p:?}): {back:?}");
            user = Some(u);
            pass = Some(p);
        }
        let mut will = None;
        if s.flag() {
            let (t, msg, q, retain) = (gen::topic(s), gen::bin(s), s.below(3) as u8, s.flag());
            let w = $m::LastWill::new(t.clone(), msg.clone(), qos_of(q), retain);
            ensure!(
                w.topic == t && w.message[..] == msg[..] && w.qos == qos_of(q) && w.retain == retain,
                "LastWill::new({t:?}, {msg:?}, {q}, {retain}) is {w:?}"
            );
            x.last_will = Some(w);
            will = Some(Will { topic: t, msg, qos: q, retain, props: vec![] });
        }
        // an empty part of a login is left out of the frame
        let ne = |v: Option<String>| v.filter(|t| !t.is_empty());
        let want = M::Connect {
            level: $level,
            keep_alive: 10,
            client_id: id,
            clean: true,
            will,
            user: ne(user),
            pass: ne(pass),
            props: vec![],
        };
        ensure!(x.protocol == if $level == 4 { Protocol::V4 } else { Protocol::V5 }, "Connect::new: {x:?}");
        built($wrap($m::Packet::Connect(x)), want, $ver, c, "Connect::new / set_login / LastWill::new")
    }};
}

macro_rules! login_ctor {
    ($m:ident, $s:expr, $c:expr) => {{
        let (s, c) = ($s, $c);
        let (u, p) = (id_text(s), id_text(s));
        let l = $m::Login::new(u.clone(), p.clone());
        let near = |s: &mut Src, t: &String| -> String {
            match s.below(8) {
                0 | 1 | 2 => t.clone(),
                3 => format!("{t} "),
                4 => t.to_uppercase(),
                5 => {
                    let mut k = t.clone();
                    k.pop();
                    k
                }
                6 => format!("x{t}"),
                _ => id_text(s),
            }
        };
        let (gu, gp) = match s.below(5) {
            // the two swapped
            0 => (p.clone(), u.clone()),
            _ => (near(s, &u), near(s, &p)),
        };
        c.label("Login::validate");
        c.nontrivial = true;
        c.subject(format!("{u}\0{p}\0{gu}\0{gp}").as_bytes());
        c.note(|| format!("login ({u:?}, {p:?}) against ({gu:?}, {gp:?})"));
        let r = call("validate", || l.validate(&gu, &gp))?;
        c.label(if r { "validate: yes" } else { "validate: no" });
        ensure!(r == (u == gu && p == gp), "login ({u:?}, {p:?}) validates ({gu:?}, {gp:?}) as {r}");
        Ok(())
    }};
}

/// The same filters through iterators of different kinds.
macro_rules! new_many_of {
    ($m:ident, $how:expr, $k:expr, $fs:expr) => {{
        let fs: Vec<$m::SubscribeFilter> = $fs.clone();
        match $how {
            0 => $m::Subscribe::new_many(fs),
            // nothing known about the length
            1 => $m::Subscribe::new_many(fs.into_iter().filter(|_| true)),
            2 => {
                let mut i = fs.into_iter();
                $m::Subscribe::new_many(std::iter::from_fn(move || i.next()))
            }
            // two halves, one of them perhaps empty
            3 => {
                let b = fs[$k..].to_vec();
                $m::Subscribe::new_many(fs[..$k].to_vec().into_iter().chain(b))
            }
            4 => $m::Subscribe::new_many(fs.into_iter().flat_map(|f| Some(f).into_iter())),
            // one that may not be asked again after its end
            5 => {
                let mut i = fs.into_iter();
                let mut over = false;
                $m::Subscribe::new_many(std::iter::from_fn(move || {
                    assert!(!over, "asked after the end");
                    let x = i.next();
                    over = x.is_none();
                    x
                }))
            }
            6 => $m::Subscribe::new_many(std::collections::VecDeque::from(fs)),
            // more promised than there is
            7 => $m::Subscribe::new_many(fs.into_iter().map(Some).chain(vec![None; $k]).take_while(|f| f.is_some()).flatten()),
            _ => $m::Subscribe::new_many(Some(fs).into_iter().flatten()),
        }
    }};
}
const HOWS: u64 = 9;
const HOW: [&str; 9] = [
    "a vector",
    "a filtered iterator",
    "a closure",
    "a chain",
    "a flat map",
    "a closure asked once too often",
    "a deque",
    "an iterator with too long a hint",
    "a flattened option",
];

fn ctors4(s: &mut Src, c: &mut Ctx) -> R {
    use v4::*;
    let w = |p| P::P4(p);
    match s.below(12) {
        0 => publish_ctor!(v4, w, V4, s, c),
        1 => connect_ctor!(v4, w, V4, 4, s, c),
        2 => login_ctor!(v4, s, c),
        3 => {
            let k = s.below(5);
            let id = gen::num16(s);
            let ack = |ty| M::Ack { ty, pkid: id, reason: 0, props: vec![] };
            match k {
                0 => built(w(Packet::PubAck(PubAck::new(id))), ack(PUBACK), V4, c, "PubAck::new"),
                1 => built(w(Packet::PubRec(PubRec::new(id))), ack(PUBREC), V4, c, "PubRec::new"),
                2 => built(w(Packet::PubRel(PubRel::new(id))), ack(PUBREL), V4, c, "PubRel::new"),
                3 => built(w(Packet::PubComp(PubComp::new(id))), ack(PUBCOMP), V4, c, "PubComp::new"),
                _ => built(
                    w(Packet::UnsubAck(UnsubAck::new(id))),
                    M::UnsubAck { pkid: id, props: vec![], codes: vec![] },
                    V4,
                    c,
                    "UnsubAck::new",
                ),
            }
        }
        4 => {
            let code = *s.pick(codes(V4, CONNACK));
            let sp = s.flag();
            built(
                w(Packet::ConnAck(ConnAck::new(connack4(code), sp))),
                M::ConnAck { sp, code, props: vec![] },
                V4,
                c,
                "ConnAck::new",
            )
        }
        5 => {
            let id = gen::num16(s);
            let n = s.range(1, 20);
            let cs: Vec<u8> = (0..n).map(|_| *s.pick(codes(V4, SUBACK))).collect();
            let x = SubAck::new(id, cs.iter().map(|n| suback4(*n)).collect());
            built(w(Packet::SubAck(x)), M::SubAck { pkid: id, props: vec![], codes: cs }, V4, c, "SubAck::new")
        }
        6 | 7 | 8 => {
            // new, then add; new_many of the same
            let n = s.range(1, 12);
            let fs: Vec<(String, u8)> = (0..n).map(|_| (gen::filter(s), s.below(3) as u8)).collect();
            let mut x = Subscribe::new(fs[0].0.clone(), qos_of(fs[0].1));
            ensure!(x.pkid == 0, "Subscribe::new has packet id {}", x.pkid);
            for (f, q) in &fs[1..] {
                let before = x.filters.len();
                let r = x.add(f.clone(), qos_of(*q));
                ensure!(r.filters.len() == before + 1, "add leaves {} filters of {before}", r.filters.len());
            }
            let y = Subscribe::new_many(fs.iter().map(|(f, q)| SubscribeFilter::new(f.clone(), qos_of(*q))));
            ensure!(y.as_ref() == Ok(&x), "new + add gives {x:?}, new_many {y:?}, from {fs:?}");
            let (how, k) = (s.below(HOWS), s.below(n + 1) as usize);
            let y = call("new_many", || new_many_of!(v4, how, k, x.filters))?;
            ensure!(y.as_ref() == Ok(&x), "new + add gives {x:?}, new_many of {} {y:?}, from {fs:?}", HOW[how as usize]);
            for ((f, _), sf) in fs.iter().zip(&x.filters) {
                ensure!(sf.len() == 3 + f.len(), "SubscribeFilter({f:?}).len() is {}", sf.len());
            }
            x.pkid = gen::num16(s);
            let want = M::Subscribe { pkid: x.pkid, props: vec![], filters: fs };
            built(w(Packet::Subscribe(x)), want, V4, c, "Subscribe::new / add / new_many")
        }
        9 => {
            c.label("Subscribe::new_many of nothing");
            let how = s.below(HOWS);
            let none: Vec<SubscribeFilter> = vec![];
            let r = call("new_many", || new_many_of!(v4, how, 0, none))?;
            ensure!(r == Err(Error::EmptySubscription), "Subscribe::new_many of nothing ({}) is {r:?}", HOW[how as usize]);
            let r = call("new_many", || Subscribe::new_many(none))?;
            ensure!(r == Err(Error::EmptySubscription), "Subscribe::new_many of nothing is {r:?}");
            Ok(())
        }
        10 => {
            let f = gen::filter(s);
            let mut x = Unsubscribe::new(f.clone());
            x.pkid = gen::num16(s);
            let want = M::Unsubscribe { pkid: x.pkid, props: vec![], filters: vec![f] };
            built(w(Packet::Unsubscribe(x)), want, V4, c, "Unsubscribe::new")
        }
        _ => match s.below(3) {
            0 => built(w(Packet::PingReq), M::PingReq, V4, c, "PingReq"),
            1 => built(w(Packet::PingResp), M::PingResp, V4, c, "PingResp"),
            _ => built(w(Packet::Disconnect), M::Disconnect { reason: 0, props: vec![] }, V4, c, "Disconnect"),
        },
    }
}

fn ctors5(s: &mut Src, c: &mut Ctx) -> R {
    use v5::*;
    let w = |p| P::P5(p);
    match s.below(12) {
        0 => {
            let r = publish_ctor!(v5, w, V5, &mut *s, &mut *c);
            ensure!(Publish::new("a", QoS1, "x").properties.is_none(), "Publish::new has properties");
            r
        }
        1 => {
            ensure!(Connect::new("a").properties.is_none(), "Connect::new has properties");
            ensure!(LastWill::new("a", "b", QoS1, true).properties.is_none(), "LastWill::new has properties");
            connect_ctor!(v5, w, V5, 5, s, c)
        }
        2 => connect_ctor!(v5, w, V5, 5, s, c),
        3 => {
            let k = s.below(5);
            let id = gen::num16(s);
            let ack = |ty| M::Ack { ty, pkid: id, reason: 0, props: vec![] };
            match k {
                0 => built(w(Packet::PubAck(PubAck::new(id))), ack(PUBACK), V5, c, "PubAck::new"),
                1 => built(w(Packet::PubRec(PubRec::new(id))), ack(PUBREC), V5, c, "PubRec::new"),
                2 => built(w(Packet::PubRel(PubRel::new(id))), ack(PUBREL), V5, c, "PubRel::new"),
                3 => built(w(Packet::PubComp(PubComp::new(id))), ack(PUBCOMP), V5, c, "PubComp::new"),
                _ => {
                    let mut x = UnsubAck::new(id);
                    ensure!(x.reasons.is_empty() && x.properties.is_none(), "UnsubAck::new: {x:?}");
                    let n = s.range(1, 6);
                    let cs: Vec<u8> = (0..n).map(|_| *s.pick(codes(V5, UNSUBACK))).collect();
                    x.reasons = cs.iter().map(|n| unsuback5(*n)).collect();
                    built(
                        w(Packet::UnsubAck(x)),
                        M::UnsubAck { pkid: id, props: vec![], codes: cs },
                        V5,
                        c,
                        "UnsubAck::new",
                    )
                }
            }
        }
        4 => {
            let code = *s.pick(codes(V5, CONNACK));
            let sp = s.flag();
            let mut x = ConnAck::new(connack5(code), sp);
            ensure!(x.properties.is_none(), "ConnAck::new has properties");
            let mut props = vec![];
            if s.flag() {
                let p = ConnAckProperties::new();
                ensure!(connack_pm(&Some(p.clone())).is_empty(), "ConnAckProperties::new() is not empty: {p:?}");
                ensure!(p.len() == 0, "ConnAckProperties::new().len() is {}", p.len());
                x.properties = Some(p);
                if s.flag() {
                    let n = gen::num16(s);
                    x.properties.as_mut().unwrap().topic_alias_max = Some(n);
                    props.push((34, PVal::U16(n)));
                }
            }
            built(w(Packet::ConnAck(x)), M::ConnAck { sp, code, props }, V5, c, "ConnAck::new")
        }
        5 => {
            let id = gen::num16(s);
            let n = s.range(1, 20);
            let cs: Vec<u8> = (0..n).map(|_| *s.pick(codes(V5, SUBACK))).collect();
            let x = SubAck::new(id, cs.iter().map(|n| suback5(*n)).collect());
            ensure!(x.properties.is_none(), "SubAck::new has properties");
            built(w(Packet::SubAck(x)), M::SubAck { pkid: id, props: vec![], codes: cs }, V5, c, "SubAck::new")
        }
        6 | 7 => {
            let n = s.range(1, 12);
            let fs: Vec<(String, u8)> = (0..n).map(|_| (gen::filter(s), s.below(3) as u8)).collect();
            let mut x = Subscribe::new(fs[0].0.clone(), qos_of(fs[0].1));
            ensure!(x.pkid == 0 && x.properties.is_none(), "Subscribe::new: {x:?}");
            let mut z = Subscribe::empty_subscribe();
            ensure!(z.pkid == 0 && z.filters.is_empty() && z.properties.is_none(), "empty_subscribe: {z:?}");
            z.add(fs[0].0.clone(), qos_of(fs[0].1));
            for (f, q) in &fs[1..] {
                x.add(f.clone(), qos_of(*q));
                z.add(f.clone(), qos_of(*q));
            }
            let y = Subscribe::new_many(fs.iter().map(|(f, q)| SubscribeFilter::new(f.clone(), qos_of(*q))));
            ensure!(x == y && y == z, "new + add gives {x:?}, new_many {y:?}, empty + add {z:?}, from {fs:?}");
            let (how, k) = (s.below(HOWS), s.below(n + 1) as usize);
            let y = call("new_many", || new_many_of!(v5, how, k, x.filters))?;
            ensure!(x == y, "new + add gives {x:?}, new_many of {} {y:?}, from {fs:?}", HOW[how as usize]);
            x.pkid = gen::num16(s);
            let want = M::Subscribe { pkid: x.pkid, props: vec![], filters: fs };
            built(w(Packet::Subscribe(x)), want, V5, c, "Subscribe::new / add / new_many / empty_subscribe")
        }
        8 | 9 => {
            // filter setters in any order, last call wins
            let n = s.range(1, 5);
            let mut fs = vec![];
            let mut opts = vec![];
            for _ in 0..n {
                let path = gen::filter(s);
                let q = s.below(3) as u8;
                let mut f = SubscribeFilter::new(path.clone(), qos_of(q));
                let mut o = q;
                ensure!(opts5(&f) == o && f.path == path, "SubscribeFilter::new({path:?}, {q}) is {f:?}");
                ensure!(f.len() == 3 + path.len(), "SubscribeFilter({path:?}).len() is {}", f.len());
                for _ in 0..s.below(6) {
                    let b = s.flag();
                    match s.below(3) {
                        0 => {
                            f.set_nolocal(b);
                            o = o & !4 | (b as u8) << 2;
                        }
                        1 => {
                            f.set_preserve_retain(b);
                            o = o & !8 | (b as u8) << 3;
                        }
                        _ => {
                            let r = s.below(3) as u8;
                            f.set_retain_forward_rule(match r {
                                0 => RetainForwardRule::OnEverySubscribe,
                                1 => RetainForwardRule::OnNewSubscribe,
                                _ => RetainForwardRule::Never,
                            });
                            o = o & !0x30 | r << 4;
                        }
                    }
                    ensure!(opts5(&f) == o && f.path == path, "filter setters: got {:#x}, expected {o:#x}", opts5(&f));
                }
                fs.push(f);
                opts.push((path, o));
            }
            let mut x = Subscribe::new_many(fs);
            x.pkid = gen::num16(s);
            let want = M::Subscribe { pkid: x.pkid, props: vec![], filters: opts };
            built(w(Packet::Subscribe(x)), want, V5, c, "SubscribeFilter setters")
        }
        10 => {
            let f = gen::filter(s);
            let mut x = Unsubscribe::new(f.clone());
            ensure!(x.properties.is_none(), "Unsubscribe::new has properties");
            x.pkid = gen::num16(s);
            let want = M::Unsubscribe { pkid: x.pkid, props: vec![], filters: vec![f] };
            built(w(Packet::Unsubscribe(x)), want, V5, c, "Unsubscribe::new")
        }
        _ => match s.below(4) {
            0 => built(w(Packet::PingReq), M::PingReq, V5, c, "PingReq"),
            1 => built(w(Packet::PingResp), M::PingResp, V5, c, "PingResp"),
            2 => built(
                w(Packet::Disconnect(Disconnect::new())),
                M::Disconnect { reason: 0, props: vec![] },
                V5,
                c,
                "Disconnect::new",
            ),
            _ => {
                let mut x = Disconnect::new();
                let mut p = DisconnectProperties::new();
                ensure!(disconnect_pm(&Some(p.clone())).is_empty(), "DisconnectProperties::new(): {p:?}");
                let t = gen::text(s);
                p.reason_string = Some(t.clone());
                x.properties = Some(p);
                built(
                    w(Packet::Disconnect(x)),
                    M::Disconnect { reason: 0, props: vec![(31, PVal::Str(t))] },
                    V5,
                    c,
                    "DisconnectProperties::new",
                )
            }
        },
    }
}

/// Sizes beyond what 16 and 24 bits can count.
fn many(s: &mut Src) -> usize {
    match s.below(4) {
        0 => *s.pick(&[255, 256, 257, 1000, 4096, 32_767, 32_768]),
        1 => s.range(65_530, 65_540) as usize,
        2 => s.range(1_000, 70_000) as usize,
        _ => s.range(70_000, 200_000) as usize,
    }
}

fn long_text(s: &mut Src) -> String {
    let n = match s.below(3) {
        0 => s.range(65_520, 65_535),
        1 => s.range(32_760, 32_776),
        _ => s.range(1_000, 65_535),
    } as usize;
    let unit = *s.pick(&["x", "é", "€", "😀", "level/"]);
    let mut t = unit.repeat(n / unit.len());
    while t.len() < n {
        t.push('y');
    }
    t
}

macro_rules! large_ctor {
    ($m:ident, $wrap:expr, $ver:expr, $level:expr, $s:expr, $c:expr, $many:expr, $suback:expr, $validate:expr) => {{
        let (s, c) = ($s, $c);
        match s.below(6) {
            0 => {
                let t = long_text(s);
                let n = if s.chance(1, 8) { s.range(16_777_000, 20_000_000) as usize } else { many(s) };
                let payload = blob(n);
                let a = $m::Publish::new(t.as_str(), QoS0, payload.clone());
                let b = $m::Publish::from_bytes(t.clone(), QoS0, given_bytes(s, &payload));
                ensure!(a == b, "Publish::new and from_bytes of a topic of {} and a payload of {n} bytes differ", t.len());
                built($wrap($m::Packet::Publish(a)), publish_m(&t, 0, 0, &payload), $ver, c, "Publish::new, large")
            }
            1 => {
                let (id, u, p, wt) = (long_text(s), long_text(s), long_text(s), long_text(s));
                let msg = blob(many(s).min(65_535));
                let mut x = $m::Connect::new(id.clone());
                x.set_login(u.clone(), p.clone());
                x.last_will = Some($m::LastWill::new(wt.clone(), msg.clone(), QoS2, true));
                let l = $m::Login::new(u.clone(), p.clone());
                let off = |t: &String, n: usize| {
                    let mut t = t.clone();
                    let at = (0..=n).rev().find(|i| t.is_char_boundary(*i)).unwrap();
                    t.insert(at, '.');
                    t
                };
                let at = s.below(u.len().min(p.len()) as u64) as usize;
                let asked = [(u.clone(), p.clone(), true), (off(&u, at), p.clone(), false), (u.clone(), off(&p, at), false)];
                for (gu, gp, want) in asked {
                    let Some(r) = call("validate", || $validate(&l, &gu, &gp))? else { continue };
                    ensure!(r == want, "a login of {} and {} bytes validates one of {} and {} as {r}", u.len(), p.len(), gu.len(), gp.len());
                }
                let want = M::Connect {
                    level: $level,
                    keep_alive: 10,
                    client_id: id,
                    clean: true,
                    will: Some(Will { topic: wt, msg, qos: 2, retain: true, props: vec![] }),
                    user: Some(u),
                    pass: Some(p),
                    props: vec![],
                };
                built($wrap($m::Packet::Connect(x)), want, $ver, c, "Connect::new, large")
            }
            2 => {
                let n = many(s);
                let cs: Vec<u8> = blob(n).iter().map(|b| codes($ver, SUBACK)[*b as usize % codes($ver, SUBACK).len()]).collect();
                let x = $m::SubAck::new(7, cs.iter().map(|n| $suback(*n)).collect());
                built($wrap($m::Packet::SubAck(x)), M::SubAck { pkid: 7, props: vec![], codes: cs }, $ver, c, "SubAck::new, large")
            }
            3 => {
                let f = long_text(s);
                let mut x = $m::Unsubscribe::new(f.clone());
                x.pkid = 7;
                let want = M::Unsubscribe { pkid: 7, props: vec![], filters: vec![f] };
                built($wrap($m::Packet::Unsubscribe(x)), want, $ver, c, "Unsubscribe::new, large")
            }
            _ => {
                let n = if s.chance(1, 4) { s.range(1, 20) as usize } else { many(s) };
                let long = n <= 20;
                let fs: Vec<(String, u8)> =
                    (0..n).map(|i| (if long { long_text(s) } else { format!("f/{i}") }, (i % 3) as u8)).collect();
                let mut x = $m::Subscribe::new(fs[0].0.clone(), qos_of(fs[0].1));
                for (f, q) in &fs[1..] {
                    x.add(f.clone(), qos_of(*q));
                }
                ensure!(x.filters.len() == n, "{n} filters added to a subscription leave {}", x.filters.len());
                let (how, k) = (s.below(HOWS), s.below(n as u64 + 1) as usize);
                let y = call("new_many", || $many(how, k, &x.filters))?;
                let Ok(mut y) = y else { return fail(format!("new_many of {n} filters is {y:?}")) };
                ensure!(
                    y == x,
                    "new + add of {n} filters gives {} filters, new_many of {} {}, or in another order",
                    x.filters.len(),
                    HOW[how as usize],
                    y.filters.len()
                );
                x.pkid = 7;
                y.pkid = 7;
                let want = M::Subscribe { pkid: 7, props: vec![], filters: fs };
                built($wrap($m::Packet::Subscribe(x)), want.clone(), $ver, c, "Subscribe::add, large")?;
                built($wrap($m::Packet::Subscribe(y)), want, $ver, c, "Subscribe::new_many, large")
            }
        }
    }};
}

fn large4(s: &mut Src, c: &mut Ctx) -> R {
    use v4::*;
    use mqttbytes::QoS::{AtMostOnce as QoS0, ExactlyOnce as QoS2};
    fn of(how: u64, k: usize, fs: &Vec<SubscribeFilter>) -> Result<Subscribe, Error> {
        new_many_of!(v4, how, k, fs)
    }
    large_ctor!(v4, P::P4, V4, 4, s, c, of, suback4, |l: &Login, u: &String, p: &String| Some(l.validate(u, p)))
}

fn large5(s: &mut Src, c: &mut Ctx) -> R {
    use v5::*;
    use mqttbytes::QoS::{AtMostOnce as QoS0, ExactlyOnce as QoS2};
    fn of(how: u64, k: usize, fs: &Vec<SubscribeFilter>) -> Result<Subscribe, Error> {
        Ok(new_many_of!(v5, how, k, fs))
    }
    large_ctor!(v5, P::P5, V5, 5, s, c, of, suback5, |_: &Login, _: &String, _: &String| None::<bool>)
}
