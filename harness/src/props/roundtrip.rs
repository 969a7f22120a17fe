//! C01 - C06, C20, C23, C24

use super::*;
use crate::gen;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "random valid 3.1.1 packets, all 14 types equally often, plus every type x field shape enumerated; every 16-bit place with every value, 32-bit and variable ones with 131072 values, every field, list and payload of the fullest packets in every length of 0 to 1099 and around larger powers of two, packets of several fields of up to 65535 bytes and lists of up to 2 million items, payloads and lists around 2^24 items and up to 268435455 bytes; non-trivial: carries an optional field, a payload, a list or a non-default id/code; distinct by wire bytes",
            parts: vec![
                Part::random("packets", 9_000_000, 90_000_000, |s, c| round(s, c, V4)),
                Part::all("connect flag shapes", SHAPES, |s, c| shapes(s, c, V4)),
                Part::all("every number", NUMBERS4, |s, c| numbers(s, c, V4, |m, c| round_of(m, c, V4, false))),
                Part::all("every length", LENGTHS, |s, c| lengths(s, c, V4, |m, c| round_of(m, c, V4, false))),
                Part::random("large packets", 2_000, 40_000, |s, c| large_of(s, c, V4, |m, c| round_of(m, c, V4, false))),
                Part::all("huge packets", HUGE, |s, c| huge_of(s, c, V4, |m, c| round_of(m, c, V4, false))).serial(),
            ],
        },
        Prop {
            id: "C02",
            rule: "random valid MQTT 5 packets, all 14 types equally often, random property subsets, values and repetitions, plus each property alone and all absent/present; every 16-bit place with every value, 32-bit and variable ones with 131072 values, every field, list and payload of the fullest packets in every length of 0 to 1099 and around larger powers of two, packets of several fields of up to 65535 bytes and lists of up to 2 million items, payloads and lists around 2^24 items and up to 268435455 bytes; non-trivial: carries an optional field, property, payload, list or non-default id/code; distinct by wire bytes",
            parts: vec![
                Part::random("packets", 12_000_000, 120_000_000, |s, c| round(s, c, V5)),
                Part::random("connects", 1_800_000, 18_000_000, |s, c| round_ty(s, c, V5, CONNECT)),
                Part::all("connect flag shapes", SHAPES, |s, c| shapes(s, c, V5)),
                Part::all("one property", 14 * 27 * 8, |s, c| one_prop(s, c, |m, c| round_of(m, c, V5, false))),
                Part::all("every number", NUMBERS5, |s, c| numbers(s, c, V5, |m, c| round_of(m, c, V5, false))),
                Part::all("every length", LENGTHS, |s, c| lengths(s, c, V5, |m, c| round_of(m, c, V5, false))),
                Part::random("large packets", 2_000, 40_000, |s, c| large_of(s, c, V5, |m, c| round_of(m, c, V5, false))),
                Part::all("huge packets", HUGE, |s, c| huge_of(s, c, V5, |m, c| round_of(m, c, V5, false))).serial(),
            ],
        },
        Prop {
            id: "C03",
            rule: "random valid 3.1.1 packets; encoded bytes against the reference encoder, byte for byte; every 16-bit place with every value, 32-bit and variable ones with 131072 values, every field, list and payload of the fullest packets in every length of 0 to 1099 and around larger powers of two, packets of several fields of up to 65535 bytes and lists of up to 2 million items, payloads and lists around 2^24 items and up to 268435455 bytes; non-trivial as in C01; distinct by wire bytes",
            parts: vec![
                Part::random("packets", 9_000_000, 90_000_000, c03),
                Part::all("connect flag shapes", SHAPES, |s, c| {
                    let m = shape(s, V4).canon(V4);
                    if matches!(&m, M::Connect { user: None, pass: Some(_), .. }) {
                        return Ok(());
                    }
                    c03_of(m, c)
                }),
                Part::all("every number", NUMBERS4, |s, c| numbers(s, c, V4, |m, c| c03_of(m, c))),
                Part::all("every length", LENGTHS, |s, c| lengths(s, c, V4, |m, c| c03_of(m, c))),
                Part::random("large packets", 2_000, 40_000, |s, c| large_of(s, c, V4, c03_of)),
                Part::all("huge packets", HUGE, |s, c| huge_of(s, c, V4, c03_of)).serial(),
            ],
        },
        Prop {
            id: "C04",
            rule: "random valid MQTT 5 packets with None / Some(empty) property sets; encoded bytes through the strict reference decoder; every 16-bit place with every value, 32-bit and variable ones with 131072 values, every field, list and payload of the fullest packets in every length of 0 to 1099 and around larger powers of two, packets of several fields of up to 65535 bytes and lists of up to 2 million items, payloads and lists around 2^24 items and up to 268435455 bytes; non-trivial as in C02; distinct by wire bytes",
            parts: vec![
                Part::random("packets", 12_000_000, 120_000_000, c04),
                Part::all("connect flag shapes", SHAPES, |s, c| {
                    let m = shape(s, V5).canon(V5);
                    if matches!(&m, M::Connect { level: 4, user: None, pass: Some(_), .. }) {
                        return Ok(());
                    }
                    c04_of(m, c, false)
                }),
                Part::all("one property", 14 * 27 * 8, |s, c| one_prop(s, c, |m, c| c04_of(m, c, false))),
                Part::all("every number", NUMBERS5, |s, c| numbers(s, c, V5, |m, c| c04_of(m, c, false))),
                Part::all("every length", LENGTHS, |s, c| lengths(s, c, V5, |m, c| c04_of(m, c, false))),
                Part::random("large packets", 2_000, 40_000, |s, c| {
                    let es = s.flag();
                    large_of(s, c, V5, |m, c| c04_of(m, c, es))
                }),
                Part::all("huge packets", HUGE, |s, c| huge_of(s, c, V5, |m, c| c04_of(m, c, false))).serial(),
            ],
        },
        Prop {
            id: "C05",
            rule: "valid 3.1.1 frames from the reference encoder, alone or followed by other bytes; every 16-bit place with every value, 32-bit and variable ones with 131072 values, every field, list and payload of the fullest packets in every length of 0 to 1099 and around larger powers of two, packets of several fields of up to 65535 bytes and lists of up to 2 million items, payloads and lists around 2^24 items and up to 268435455 bytes; non-trivial as in C01; distinct by wire bytes",
            parts: vec![
                Part::random("frames", 9_000_000, 90_000_000, |s, c| valid(s, c, V4)),
                Part::all("connect flag shapes", SHAPES, |s, c| {
                    let m = shape(s, V4);
                    valid_of(m, c, V4, 0, &[])
                }),
                Part::all("every number", NUMBERS4, |s, c| numbers(s, c, V4, |m, c| valid_of(m, c, V4, 0, &[]))),
                Part::all("every length", LENGTHS, |s, c| lengths(s, c, V4, |m, c| valid_of(m, c, V4, 0, &[]))),
                Part::random("large packets", 2_000, 40_000, |s, c| large_of(s, c, V4, |m, c| valid_of(m, c, V4, 0, &[]))),
                Part::all("huge packets", HUGE, |s, c| huge_of(s, c, V4, |m, c| valid_of(m, c, V4, 0, &[]))).serial(),
            ],
        },
        Prop {
            id: "C06",
            rule: "valid MQTT 5 frames from the reference encoder: random property order and repetition, every optional short form, alone or followed by other bytes; every 16-bit place with every value, 32-bit and variable ones with 131072 values, every field, list and payload of the fullest packets in every length of 0 to 1099 and around larger powers of two, packets of several fields of up to 65535 bytes and lists of up to 2 million items, payloads and lists around 2^24 items and up to 268435455 bytes; non-trivial as in C02; distinct by wire bytes",
            parts: vec![
                Part::random("frames", 12_000_000, 120_000_000, |s, c| valid(s, c, V5)),
                Part::all("connect flag shapes", SHAPES, |s, c| {
                    let m = shape(s, V5);
                    valid_of(m, c, V5, 0, &[])
                }),
                Part::all("one property", 14 * 27 * 8, |s, c| one_prop(s, c, |m, c| valid_of(m, c, V5, 0, &[]))),
                Part::all("ack and disconnect forms", 5 * 3 * 32 * 3, short_forms),
                Part::all("every number", NUMBERS5, |s, c| numbers(s, c, V5, |m, c| valid_of(m, c, V5, 0, &[]))),
                Part::all("every length", LENGTHS, |s, c| lengths(s, c, V5, |m, c| valid_of(m, c, V5, 0, &[]))),
                Part::random("large packets", 2_000, 40_000, |s, c| large_of(s, c, V5, |m, c| valid_of(m, c, V5, 0, &[]))),
                Part::all("huge packets", HUGE, |s, c| huge_of(s, c, V5, |m, c| valid_of(m, c, V5, 0, &[]))).serial(),
            ],
        },
        Prop {
            id: "C20",
            rule: "frames of any quality (valid, packet-level edits, byte-level edits, random bodies), compared as the crate and as the specification read them; every number, property and length enumerated as in C05 and C06, large and huge packets; non-trivial: the reader accepted and the packet is not a ping; distinct by wire bytes",
            parts: vec![
                Part::random("v4", 14_400_000, 144_000_000, |s, c| fixpoint(s, c, V4)),
                Part::random("v5", 14_400_000, 144_000_000, |s, c| fixpoint(s, c, V5)),
                Part::all("v4, every number", NUMBERS4, |s, c| numbers(s, c, V4, |m, c| relayed(m, c, V4))),
                Part::all("v5, every number", NUMBERS5, |s, c| numbers(s, c, V5, |m, c| relayed(m, c, V5))),
                Part::all("v5, one property", 14 * 27 * 8, |s, c| one_prop(s, c, |m, c| relayed(m, c, V5))),
                Part::all("v4, every length", LENGTHS, |s, c| lengths(s, c, V4, |m, c| relayed(m, c, V4))),
                Part::all("v5, every length", LENGTHS, |s, c| lengths(s, c, V5, |m, c| relayed(m, c, V5))),
                Part::random("v4, large packets", 2_000, 40_000, |s, c| large_of(s, c, V4, |m, c| relayed(m, c, V4))),
                Part::random("v5, large packets", 2_000, 40_000, |s, c| large_of(s, c, V5, |m, c| relayed(m, c, V5))),
                Part::all("v4, huge packets", HUGE, |s, c| huge_of(s, c, V4, |m, c| relayed(m, c, V4))).serial(),
                Part::all("v5, huge packets", HUGE, |s, c| huge_of(s, c, V5, |m, c| relayed(m, c, V5))).serial(),
            ],
        },
        Prop {
            id: "C23",
            rule: "random valid 3.1.1 CONNECT frames through both readers, the same packets through both writers, and mutated 3.1.1 CONNECTs through both readers, the same with fields of up to 65535 bytes; non-trivial: has a will or a login; distinct by wire bytes",
            parts: vec![
                Part::random("connects", 9_600_000, 96_000_000, c23),
                Part::random("edited connects", 4_800_000, 48_000_000, c23_edited),
                Part::random("large connects", 3_000, 60_000, |s, c| {
                    let m = large_ty(s, V4, CONNECT);
                    c23_of(m, c)
                }),
                Part::random("large connects, edited", 3_000, 60_000, |s, c| {
                    let m = large_ty(s, V4, CONNECT);
                    c23_edited_of(s, c, m)
                }),
                Part::all("pings", 2, c23_ping),
                Part::all("connect flag shapes", SHAPES, |s, c| {
                    let m = shape(s, V4);
                    c23_of(m, c)
                }),
            ],
        },
        Prop {
            id: "C24",
            rule: "frames of any quality, stream reader against check + split + per-packet reader (for an empty body, which the stream reader answers itself, only acceptance is compared); frames with lists of up to 17 million items, payloads of up to 268435455 bytes, damaged anywhere; non-trivial: body of at least 2 bytes; distinct by wire bytes",
            parts: vec![
                Part::random("v4", 14_400_000, 144_000_000, |s, c| c24(s, c, V4)),
                Part::random("v5", 14_400_000, 144_000_000, |s, c| c24(s, c, V5)),
                Part::all("every header byte, bodies of up to one byte", 256 * 257 * 2, c24_short),
                Part::random("v4, large packets", 4_000, 80_000, |s, c| c24_large(s, c, V4)),
                Part::random("v5, large packets", 4_000, 80_000, |s, c| c24_large(s, c, V5)),
                Part::all("v4, huge packets", HUGE, |s, c| huge_of(s, c, V4, |m, c| c24_of(&encode_frame(&m, V4, 0), c, V4))).serial(),
                Part::all("v5, huge packets", HUGE, |s, c| huge_of(s, c, V5, |m, c| c24_of(&encode_frame(&m, V5, 0), c, V5))).serial(),
            ],
        },
    ]
}

fn begin(m: &M, ver: Ver, c: &mut Ctx) {
    c.label(TYPE_NAMES[m.ty() as usize]);
    c.nontrivial = gen::nontrivial(m);
    c.subject(&encode_frame(m, ver, 0));
    c.note(|| format!("{} {m:?}", vname(ver)));
}

fn round(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let ty = s.range(1, 14) as u8;
    round_ty(s, c, ver, ty)
}

fn round_ty(s: &mut Src, c: &mut Ctx, ver: Ver, ty: u8) -> R {
    let mut m = gen::model_of(s, ver, ty);
    let es = s.flag();
    if let M::Connect { user, pass, .. } = &mut m {
        // a login the wire cannot tell from its parts being absent
        match s.below(12) {
            1 => *user = Some(String::new()),
            2 => *pass = Some(String::new()),
            _ => {}
        }
    }
    round_of(m, c, ver, es)
}

fn round_of(m: M, c: &mut Ctx, ver: Ver, es: bool) -> R {
    begin(&m, ver, c);
    let want = m.clone().canon(ver);
    let b = to_crate(&m, ver, es).bytes()?;
    must_read(&b, ver, &want)
}

const SHAPES: u64 = 2 * 2 * 3 * 2 * 9 * 3;

/// CONNECT in every combination of optional parts; empty user names and passwords exist on the wire only.
fn shape(s: &mut Src, ver: Ver) -> M {
    let i = s.below(SHAPES);
    let (clean, i) = (i % 2 == 1, i / 2);
    let (has_will, i) = (i % 2 == 1, i / 2);
    let (qos, i) = ((i % 3) as u8, i / 3);
    let (retain, i) = (i % 2 == 1, i / 2);
    let (login, i) = (i % 9, i / 9);
    let level = if ver == V5 && i != 0 { 5 } else { 4 };
    let rich = i == 2 && level == 5;
    let all = |ty| -> Props {
        let mut v: Props = vec![];
        if rich {
            for id in allowed(ty) {
                let k = prop_kind(*id).unwrap();
                v.push((*id, plain(k)));
                if repeatable(ty, *id) {
                    v.push((*id, plain(k)));
                }
            }
        }
        v
    };
    M::Connect {
        level,
        keep_alive: 0x0102,
        client_id: "id".into(),
        clean,
        will: if has_will {
            Some(Will { topic: "w/é".into(), msg: vec![0, 255, 7], qos, retain, props: all(WILL) })
        } else {
            None
        },
        user: [None, Some("user"), Some("")][login as usize % 3].map(|x| x.into()),
        pass: [None, Some("pw"), Some("")][login as usize / 3]
            .filter(|_| login % 3 != 0 || level == 5)
            .map(|x| x.into()),
        props: all(CONNECT),
    }
}

fn shapes(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let m = shape(s, ver);
    round_of(m, c, ver, false)
}

pub fn plain(k: char) -> PVal {
    match k {
        'b' => PVal::U8(1),
        'h' => PVal::U16(0x0102),
        'w' => PVal::U32(0x0102_0304),
        'v' => PVal::Var(300),
        's' => PVal::Str("séa".into()),
        'd' => PVal::Bin(vec![0, 255, 1]),
        _ => PVal::Pair("k".into(), "".into()),
    }
}

/// Minimal packet of a type (0: CONNECT with will).
pub fn minimal(ty: u8) -> M {
    let props = vec![];
    match ty {
        0 | CONNECT => M::Connect {
            level: 5,
            keep_alive: 1,
            client_id: "c".into(),
            clean: true,
            will: if ty == 0 {
                Some(Will { topic: "t".into(), msg: vec![1], qos: 1, retain: false, props: vec![] })
            } else {
                None
            },
            user: None,
            pass: None,
            props,
        },
        CONNACK => M::ConnAck { sp: false, code: 0, props },
        PUBLISH => M::Publish {
            dup: false,
            qos: 1,
            retain: false,
            topic: "t".into(),
            pkid: 7,
            props,
            payload: vec![1, 2],
        },
        PUBACK..=PUBCOMP => M::Ack { ty, pkid: 7, reason: 0, props },
        SUBSCRIBE => M::Subscribe { pkid: 7, props, filters: vec![("f".into(), 1)] },
        SUBACK => M::SubAck { pkid: 7, props, codes: vec![1] },
        UNSUBSCRIBE => M::Unsubscribe { pkid: 7, props, filters: vec!["f".into()] },
        UNSUBACK => M::UnsubAck { pkid: 7, props, codes: vec![0] },
        PINGREQ => M::PingReq,
        PINGRESP => M::PingResp,
        _ => M::Disconnect { reason: 0, props },
    }
}

pub fn set_props(m: &mut M, ty: u8, p: Props) {
    match m {
        M::Connect { will: Some(w), .. } if ty == 0 => w.props = p,
        m => {
            if let Some(x) = m.props_mut() {
                *x = p
            }
        }
    }
}

// ---- every value of every 16-bit place, and as many of the wider ones

/// (type, place): place 0 packet id, 1 keep alive, else a property
const PLACES: [(u8, u8); 24] = [
    (PUBLISH, 0), (PUBACK, 0), (PUBREC, 0), (PUBREL, 0), (PUBCOMP, 0), (SUBSCRIBE, 0), (SUBACK, 0), (UNSUBSCRIBE, 0),
    (UNSUBACK, 0), (CONNECT, 1), (CONNECT, 33), (CONNECT, 34), (CONNACK, 33), (CONNACK, 34), (CONNACK, 19), (PUBLISH, 35),
    (CONNECT, 17), (CONNECT, 39), (CONNACK, 17), (CONNACK, 39), (PUBLISH, 2), (DISCONNECT, 17), (PUBLISH, 11), (SUBSCRIBE, 11),
];
const NUMBERS4: u64 = 10 * 65536;
const NUMBERS5: u64 = (24 + 8 + 2 + 2) * 65536;

fn number(s: &mut Src, ver: Ver) -> Option<M> {
    let i = s.below(if ver == V4 { NUMBERS4 } else { NUMBERS5 });
    let (v, k) = (i % 65536, i / 65536);
    // the upper halves of the wide ones, then the will's
    let (ty, id, high) = match k {
        0..24 => (PLACES[k as usize].0, PLACES[k as usize].1, false),
        24..32 => (PLACES[k as usize - 8].0, PLACES[k as usize - 8].1, true),
        _ => (WILL, if k & 1 == 0 { 24 } else { 2 }, k >= 34),
    };
    let mut m = minimal(ty);
    if v == 0 && !matches!(id, 1 | 2 | 17 | 19 | 24 | 34) {
        return None;
    }
    match id {
        0 => match &mut m {
            M::Publish { pkid, .. }
            | M::Ack { pkid, .. }
            | M::Subscribe { pkid, .. }
            | M::SubAck { pkid, .. }
            | M::Unsubscribe { pkid, .. }
            | M::UnsubAck { pkid, .. } => *pkid = v as u16,
            _ => unreachable!(),
        },
        1 => {
            if let M::Connect { keep_alive, .. } = &mut m {
                *keep_alive = v as u16
            }
        }
        _ => {
            let p = match prop_kind(id).unwrap() {
                'h' => PVal::U16(v as u16),
                'w' => PVal::U32((v as u32) << if high { 16 } else { 0 } | if high { 0x0102 } else { 0 }),
                _ => PVal::Var(if high { ((v as u32) << 12) | 1 } else { v as u32 }),
            };
            set_props(&mut m, ty, vec![(id, p)]);
        }
    }
    Some(for_version(m, ver))
}

/// The v5 packet as one of version 4.
fn for_version(mut m: M, ver: Ver) -> M {
    if ver == V4 {
        match &mut m {
            M::Connect { level, .. } => *level = 4,
            M::UnsubAck { codes, .. } => codes.clear(),
            _ => {}
        }
    }
    m
}

fn numbers(s: &mut Src, c: &mut Ctx, ver: Ver, f: fn(M, &mut Ctx) -> R) -> R {
    match number(s, ver) {
        Some(m) => f(m, c),
        None => Ok(()),
    }
}

// ---- every length of every field

/// The fullest packet of a type.
pub fn fullest(ty: u8, ver: Ver) -> M {
    let mut m = minimal(if ty == CONNECT { 0 } else { ty });
    if let M::Connect { user, pass, .. } = &mut m {
        *user = Some("user".into());
        *pass = Some("pass".into());
    }
    if ver == V5 {
        for t in [ty, WILL] {
            if t == WILL && ty != CONNECT {
                continue;
            }
            let p = allowed(t).iter().map(|id| (*id, plain(prop_kind(*id).unwrap()))).collect();
            set_props(&mut m, t, p);
        }
    }
    for_version(m, ver)
}

const LENS: u64 = 1100 + 18;
const FIELDS: u64 = 40;
pub const LENGTHS: u64 = LENS * FIELDS * 14;

fn length(i: u64) -> usize {
    const MORE: [usize; 18] = [
        2047, 2048, 2049, 4095, 4096, 8191, 8192, 16382, 16383, 16384, 16385, 32767, 32768, 65531, 65532, 65533, 65534, 65535,
    ];
    if i < 1100 {
        i as usize
    } else {
        MORE[i as usize - 1100]
    }
}

pub fn lengths(s: &mut Src, c: &mut Ctx, ver: Ver, f: fn(M, &mut Ctx) -> R) -> R {
    let i = s.below(LENGTHS);
    let (k, i) = (i % FIELDS, i / FIELDS);
    let (ty, n) = ((i % 14 + 1) as u8, length(i / 14));
    let mut m = fullest(ty, ver);
    let mut at = 0;
    let mut done = false;
    let text = |n: usize| {
        let fill = ["x", "é", "€", "😀"][n % 4];
        let mut t = fill.repeat(n / fill.len());
        t.extend(std::iter::repeat_n('y', n - t.len()));
        t
    };
    super::encode::visit(&mut m, &mut |name, x| {
        if at == k && !(n == 0 && matches!(name, "topic" | "filter" | "will topic" | "user name" | "password")) {
            done = true;
            match x {
                super::encode::Field::S(x) => *x = text(n),
                super::encode::Field::B(x) => *x = (0..n).map(|i| (i * 7 + n) as u8).collect(),
            }
        }
        at += 1;
    });
    if k == at {
        // what there may be any number of
        done = true;
        match &mut m {
            M::Publish { payload, .. } => *payload = (0..n).map(|i| (i * 7 + n) as u8).collect(),
            M::Subscribe { filters, .. } => *filters = (0..n.max(1)).map(|i| (format!("f{i}"), (i % 3) as u8)).collect(),
            M::Unsubscribe { filters, .. } => *filters = (0..n.max(1)).map(|i| format!("f{i}")).collect(),
            M::SubAck { codes: l, .. } => *l = (0..n.max(1)).map(|i| codes(ver, ty)[i % codes(ver, ty).len()]).collect(),
            M::UnsubAck { codes: l, .. } if ver == V5 => {
                *l = (0..n.max(1)).map(|i| codes(ver, ty)[i % codes(ver, ty).len()]).collect()
            }
            _ => done = false,
        }
    }
    if k == at + 1 && ver == V5 && n <= 20_000 {
        if let Some(p) = m.props_mut() {
            p.retain(|x| x.0 != 38);
            p.extend((0..n).map(|i| (38, PVal::Pair(format!("k{}", i % 9), format!("{i}")))));
            done = true;
        }
    }
    if done {
        f(m, c)
    } else {
        Ok(())
    }
}

/// Several fields of up to the largest size in one packet, lists of very many items.
pub fn large(s: &mut Src, ver: Ver) -> M {
    let ty = s.range(1, 14) as u8;
    large_ty(s, ver, ty)
}

pub fn large_ty(s: &mut Src, ver: Ver, ty: u8) -> M {
    let mut m = fullest(ty, ver);
    let often = s.range(1, 4);
    let size = |s: &mut Src| match s.below(6) {
        0 => 65535,
        1 => 65534,
        2 => s.range(60_000, 65_535),
        3 => s.range(16_300, 16_400),
        4 => s.range(0x7ff0, 0x8010),
        _ => s.range(1, 65_535),
    } as usize;
    let mut sizes = vec![];
    super::encode::visit(&mut m, &mut |_, x| {
        if !s.chance(often, 4) {
            return;
        }
        let n = size(s);
        let fill = ["x", "é", "€", "😀"][s.below(4) as usize];
        sizes.push(n);
        match x {
            super::encode::Field::S(x) => {
                *x = fill.repeat(n / fill.len());
                x.extend(std::iter::repeat_n('y', n - x.len()));
            }
            super::encode::Field::B(x) => *x = (0..n).map(|i| (i * 7 + n) as u8).collect(),
        }
    });
    let count = |s: &mut Src| match s.below(8) {
        0..3 => 1,
        3 => s.range(16_370, 16_400),
        4 => s.range(65_500, 65_600),
        5 => s.range(131_000, 131_200),
        6 => s.range(2, 5) * 70_000,
        _ if s.chance(1, 3) => s.range(2_097_140, 2_097_160),
        _ => s.range(1, 100_000),
    } as usize;
    let n = match ty {
        // any order of magnitude up to millions
        PUBLISH if s.flag() => {
            let top = s.range(10, 22);
            s.range(1 << (top - 1), 1 << top) as usize
        }
        _ => count(s),
    };
    // and any flags, codes and identifiers
    match &mut m {
        M::Connect { clean, keep_alive, will, .. } => {
            *clean = s.flag();
            *keep_alive = gen::num16(s);
            if let Some(w) = will {
                w.qos = s.below(3) as u8;
                w.retain = s.flag();
            }
        }
        M::ConnAck { sp, code, .. } => {
            *code = *s.pick(codes(ver, ty));
            *sp = *code == 0 && s.flag();
        }
        M::Publish { dup, qos, retain, pkid, .. } => {
            *qos = s.below(3) as u8;
            *dup = *qos > 0 && s.flag();
            *retain = s.flag();
            *pkid = if *qos > 0 { gen::num16(s) } else { 0 };
        }
        M::Ack { pkid, reason, .. } => {
            *pkid = gen::num16(s);
            if ver == V5 {
                *reason = *s.pick(codes(ver, ty));
            }
        }
        M::Subscribe { pkid, .. } | M::SubAck { pkid, .. } | M::Unsubscribe { pkid, .. } | M::UnsubAck { pkid, .. } => {
            *pkid = gen::num16(s)
        }
        M::Disconnect { reason, .. } if ver == V5 => *reason = *s.pick(codes(ver, ty)),
        _ => {}
    }
    if n > 1 {
        match &mut m {
            M::Publish { payload, .. } => *payload = blob(n),
            M::Subscribe { filters, .. } if n < 400_000 => {
                if s.flag() {
                    *filters = (0..n).map(|i| (format!("f{i}"), (i % 3) as u8)).collect()
                } else {
                    let one = filters[0].0.clone();
                    *filters = (0..n % 20 + 2).map(|i| (one.clone(), (i % 3) as u8)).collect()
                }
            }
            M::Unsubscribe { filters, .. } if n < 400_000 => {
                if s.flag() {
                    *filters = (0..n).map(|i| format!("f{i}")).collect()
                } else {
                    let one = filters[0].clone();
                    *filters = (0..n % 20 + 2).map(|_| one.clone()).collect()
                }
            }
            M::SubAck { codes: l, .. } => *l = (0..n).map(|i| codes(ver, ty)[i % codes(ver, ty).len()]).collect(),
            M::UnsubAck { codes: l, .. } if ver == V5 => {
                *l = (0..n).map(|i| codes(ver, ty)[i % codes(ver, ty).len()]).collect()
            }
            _ => {}
        }
    }
    if ver == V5 {
        for t in [ty, WILL] {
            let p = match &mut m {
                M::Connect { will: Some(w), .. } if t == WILL => &mut w.props,
                _ if t == WILL => continue,
                m => match m.props_mut() {
                    Some(p) => p,
                    None => continue,
                },
            };
            match s.below(5) {
                0 | 1 => {}
                2 => p.clear(),
                3 => {
                    let n = s.range(2, 40);
                    let one = p.iter().find(|x| x.0 == 38).cloned();
                    p.extend((0..n).filter_map(|_| one.clone()));
                }
                _ => {
                    let n = s.range(1, 9) * 2_000;
                    p.extend((0..n).map(|i| (38, PVal::Pair(format!("k{}", i % 9), format!("{i}")))));
                }
            }
        }
    }
    m
}

fn large_of(s: &mut Src, c: &mut Ctx, ver: Ver, f: impl Fn(M, &mut Ctx) -> R) -> R {
    let m = large(s, ver);
    f(m, c)
}

/// Bytes no two stretches of which are alike.
pub fn blob(n: usize) -> Vec<u8> {
    (0..n as u32).map(|i| (i.wrapping_add(n as u32).wrapping_mul(0x9E37_79B1) >> 23) as u8 ^ (i >> 13) as u8).collect()
}

pub const HUGE: u64 = 10;

/// Packets beyond every length a small integer can hold, up to what MQTT can express.
pub fn huge_of(s: &mut Src, c: &mut Ctx, ver: Ver, f: impl Fn(M, &mut Ctx) -> R) -> R {
    let i = s.below(HUGE);
    let sizes = [(1 << 24) - 1, 1 << 24, (1 << 24) + 1, 20_000_003, (1 << 25) + 5, (1 << 26) + 77, MAX_VAR - 40];
    let code_of = |ty: u8, n: usize| -> Vec<u8> {
        let l = codes(ver, ty);
        blob(n).into_iter().map(|b| l[b as usize % l.len()]).collect()
    };
    let m = match i {
        0..7 => {
            M::Publish { dup: false, qos: 1, retain: true, topic: "t/é".into(), pkid: 77, props: vec![], payload: blob(sizes[i as usize]) }
        }
        7 => M::SubAck { pkid: 9, props: vec![], codes: code_of(SUBACK, (1 << 24) + 70_000) },
        8 => M::Unsubscribe { pkid: 9, props: vec![], filters: (0..700_000).map(|i| format!("level/{i}/+/and/more/{i}")).collect() },
        _ if ver == V5 => M::UnsubAck { pkid: 9, props: vec![], codes: code_of(UNSUBACK, (1 << 24) + 3) },
        _ => M::Subscribe {
            pkid: 9,
            props: vec![],
            filters: (0..700_000).map(|i| (format!("level/{i}/+/and/more/{i}"), (i % 3) as u8)).collect(),
        },
    };
    f(m, c)
}

/// Every packet with every single property, in several values (0x0 .. boundary).
fn one_prop(s: &mut Src, c: &mut Ctx, f: fn(M, &mut Ctx) -> R) -> R {
    let i = s.below(14 * 27 * 8);
    let (t, i) = (i % 14, i / 14);
    let (pi, variant) = (i % 27, i / 27);
    let ty = t as u8; // 0 = will
    let id = ALL_PROPS[pi as usize];
    if !allowed(ty).contains(&id) || ty == 13 {
        return Ok(());
    }
    let zero = matches!(id, 2 | 17 | 19 | 24 | 34);
    let v = match prop_kind(id).unwrap() {
        'b' => PVal::U8((variant % 2) as u8),
        'h' => PVal::U16([1, 0x0100, 0xffff, 0x00ff, 0x1234, 0x8000, 0x7fff, if zero { 0 } else { 2 }][variant as usize]),
        'w' => {
            PVal::U32([1, 0x0100_0000, u32::MAX, 0xff, 0x1234_5678, 0x8000_0000, 0x0001_0000, if zero { 0 } else { 2 }][variant as usize])
        }
        'v' => PVal::Var([1, 127, 128, 16383, 16384, 2_097_151, 2_097_152, 268_435_455][variant as usize]),
        's' => PVal::Str("é".repeat([0, 1, 60, 63, 64, 100, 8191, 32767][variant as usize])),
        'd' => PVal::Bin(vec![0x80; [0, 1, 120, 126, 127, 200, 16383, 65535][variant as usize]]),
        _ => {
            let n = [0, 1, 60, 61, 62, 127, 128, 65535][variant as usize];
            PVal::Pair("k".repeat(n), "w".repeat([0, 1, 60, 127, 65535, 3, 128, 65535][variant as usize]))
        }
    };
    let mut m = minimal(ty);
    set_props(&mut m, ty, vec![(id, v)]);
    f(m, c)
}

fn c03(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen::model(s, V4);
    c03_of(m, c)
}

fn c03_of(m: M, c: &mut Ctx) -> R {
    begin(&m, V4, c);
    let want = encode_frame(&m, V4, 0);
    let got = to_crate(&m, V4, false).bytes()?;
    ensure!(got == want, "encoded {m:?} as {}, the specification says {}", hex(&got), hex(&want));
    Ok(())
}

fn c04(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen::model(s, V5);
    let es = s.flag();
    c04_of(m, c, es)
}

fn c04_of(m: M, c: &mut Ctx, es: bool) -> R {
    begin(&m, V5, c);
    let got = to_crate(&m, V5, es).bytes()?;
    strictly(&got, V5, &m.canon(V5))
}

fn valid(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let mut m = gen::model(s, ver);
    gen::wire_login(s, &mut m);
    let form = s.below(3) as u8;
    let n = if s.chance(1, 4) { s.range(1, 12) as usize } else { 0 };
    let tail = s.bytes(n);
    valid_of(m, c, ver, form, &tail)
}

fn valid_of(m: M, c: &mut Ctx, ver: Ver, form: u8, tail: &[u8]) -> R {
    begin(&m, ver, c);
    let f = encode_frame(&m, ver, form);
    self_test(&m, ver, &f);
    let want = m.canon(ver);
    let mut st = BytesMut::from(&f[..]);
    st.extend_from_slice(tail);
    match read(&mut st, usize::MAX, ver)? {
        Err(e) => fail(format!("{} reader rejects the valid frame {}: {e:?}", vname(ver), hex(&f))),
        Ok(p) => {
            same(&format!("decoding {}", hex(&f)), &p.model(), &want)?;
            ensure!(st[..] == *tail, "after reading {} the stream holds {}, not {}", hex(&f), hex(&st), hex(tail));
            Ok(())
        }
    }
}

fn short_forms(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(5 * 3 * 32 * 3);
    let (t, i) = (i % 5, i / 5);
    let (form, i) = ((i % 3) as u8, i / 3);
    let (ci, pv) = (i % 32, i / 32);
    let ty = [PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT][t as usize];
    let list = codes(V5, ty);
    let Some(reason) = list.get(ci as usize).copied() else { return Ok(()) };
    let props: Props = match pv {
        0 => vec![],
        1 => vec![(31, PVal::Str("why".into()))],
        _ => vec![(38, PVal::Pair("a".into(), "b".into())), (31, PVal::Str("".into())), (38, PVal::Pair("a".into(), "b".into()))],
    };
    let m = if ty == DISCONNECT {
        M::Disconnect { reason, props }
    } else {
        M::Ack { ty, pkid: 0x0a0b, reason, props }
    };
    valid_of(m, c, V5, form, &[])
}

fn fixpoint(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (f, from) = gen::any_frame(s, ver);
    c.label(from);
    relay(&f, c, ver)
}

fn relayed(m: M, c: &mut Ctx, ver: Ver) -> R {
    relay(&encode_frame(&m, ver, 0), c, ver)
}

/// Read, write again, read that: three times the same packet, which is the one the first frame holds.
fn relay(f: &[u8], c: &mut Ctx, ver: Ver) -> R {
    c.subject(f);
    c.note(|| format!("{} {}", vname(ver), hex(f)));
    let p = match read_frame(f, ver)? {
        Ok(p) => p,
        Err(_) => {
            c.label("rejected");
            return Ok(());
        }
    };
    let m = p.model();
    c.label(TYPE_NAMES[m.ty() as usize]);
    c.nontrivial = f.len() > 2;
    let mut b = BytesMut::new();
    if let Err(e) = p.write(&mut b)? {
        return fail(format!("{} accepted {} but cannot encode it again: {e:?}", vname(ver), hex(f)));
    }
    let b = b.to_vec();
    match read_frame(&b, ver)? {
        Err(e) => fail(format!("{} accepted {}, re-encoded it as {} and rejects that: {e:?}", vname(ver), hex(f), hex(&b))),
        Ok(q) => {
            same(&format!("{} re-encoded as {}", hex(f), hex(&b)), &q.model(), &m)?;
            let b2 = q.bytes()?;
            ensure!(b2 == b, "{} re-encodes as {}, then as {}", hex(f), hex(&b), hex(&b2));
            // by the specification, too, both frames say the same
            if let (Verdict::Accept(x) | Verdict::Lenient(Some(x), _), Verdict::Accept(y)) = (decode(f, ver), decode(&b, ver)) {
                let (mut x, y) = (x.canon(ver), y.canon(ver));
                resolve(&mut x, &y);
                same(&format!("{} re-encoded as {}", hex(f), hex(&b)), &y, &x)?;
            }
            Ok(())
        }
    }
}

fn c23(s: &mut Src, c: &mut Ctx) -> R {
    let mut m = gen::connect(s, V4, 4);
    gen::wire_login(s, &mut m);
    c23_of(m, c)
}

fn c23_of(m: M, c: &mut Ctx) -> R {
    begin(&m, V4, c);
    let f = encode_frame(&m, V4, 0);
    self_test(&m, V4, &f);
    let want = m.clone().canon(V4);
    must_read(&f, V4, &want)?;
    must_read(&f, V5, &want)?;
    let a = to_crate(&m, V4, false).bytes()?;
    let b = to_crate(&m, V5, false).bytes()?;
    ensure!(a == b, "v4 module encodes {m:?} as {}, v5 module as {}", hex(&a), hex(&b));
    let (P::P4(p4), P::P5(mqttbytes::v5::Packet::Connect(p5))) = (to_crate(&m, V4, false), to_crate(&m, V5, false))
    else {
        unreachable!()
    };
    let mqttbytes::v4::Packet::Connect(p4) = p4 else { unreachable!() };
    let (l4, l5) = (call("v4 Connect::len", || p4.len())?, call("v5 Connect::len", || p5.len())?);
    ensure!(l4 == l5, "len() of {m:?}: v4 module {l4}, v5 module {l5}");
    Ok(())
}

fn c23_edited(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen::connect(s, V4, 4);
    c23_edited_of(s, c, m)
}

fn c23_edited_of(s: &mut Src, c: &mut Ctx, mut m: M) -> R {
    if s.flag() {
        gen::wild(s, &mut m, V4);
        if let M::Connect { level, .. } = &mut m {
            *level = 4;
        }
    }
    let (b1, mut e) = encode(&m, V4, 0);
    let mut hdr = b1;
    for _ in 0..s.range(0, 2) {
        gen::mutate(s, &mut hdr, &mut e);
    }
    let f = frame(b1, &e.body);
    c.subject(&f);
    c.note(|| hex(&f));
    // still a 3.1.1 CONNECT?
    if e.body.len() < 7 || e.body[..7] != [0, 4, b'M', b'Q', b'T', b'T', 4] {
        c.label("no longer a 3.1.1 connect");
        return Ok(());
    }
    c.nontrivial = true;
    match (read_frame(&f, V4)?, read_frame(&f, V5)?) {
        (Ok(a), Ok(b)) => {
            c.label("both accept");
            same(&format!("{} in the v5 reader, against the v4 reader", hex(&f)), &b.model(), &a.model())
        }
        (Err(_), Err(_)) => {
            c.label("both reject");
            Ok(())
        }
        (a, b) => {
            // only a difference on a frame MQTT allows is one
            if let Verdict::Accept(_) = decode(&f, V4) {
                return fail(format!("{}: v4 reader {a:?}, v5 reader {b:?}", hex(&f)));
            }
            Ok(())
        }
    }
}

fn c23_ping(s: &mut Src, c: &mut Ctx) -> R {
    let m = if s.below(2) == 0 { M::PingReq } else { M::PingResp };
    c.nontrivial = true;
    c.subject(&[m.ty()]);
    c.note(|| format!("{m:?}"));
    let a = to_crate(&m, V4, false).bytes()?;
    let b = to_crate(&m, V5, false).bytes()?;
    ensure!(a == b, "{m:?}: v4 {} v5 {}", hex(&a), hex(&b));
    must_read(&a, V4, &m)?;
    must_read(&a, V5, &m)
}

fn c24_short(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(256 * 257 * 2);
    let (b1, i) = ((i % 256) as u8, i / 256);
    let (b, v) = (i % 257, i / 257);
    let f = if b == 256 { vec![b1, 0] } else { vec![b1, 1, b as u8] };
    c24_of(&f, c, if v == 0 { V4 } else { V5 })
}

fn c24(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (f, from) = gen::any_frame(s, ver);
    c.label(from);
    c24_of(&f, c, ver)
}

fn c24_large(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let f = large_frame(s, ver);
    c24_of(&f, c, ver)
}

/// The frame of a large packet, half of the time with something wrong somewhere in it.
pub fn large_frame(s: &mut Src, ver: Ver) -> Vec<u8> {
    let mut m = large(s, ver);
    let bad = s.flag();
    if bad && s.chance(1, 3) {
        gen::wild(s, &mut m, ver);
    }
    let (mut b1, mut e) = encode(&m, ver, s.below(3) as u8);
    if bad && e.body.len() < 1_000_000 {
        for _ in 0..s.range(1, 2) {
            gen::mutate(s, &mut b1, &mut e);
        }
    }
    if e.body.len() > MAX_VAR {
        return vec![0xc0, 0];
    }
    frame(b1, &e.body)
}

fn c24_of(f: &[u8], c: &mut Ctx, ver: Ver) -> R {
    let Framing::Frame(h, n) = framing(f, usize::MAX) else { panic!() };
    c.subject(f);
    c.note(|| format!("{} {}", vname(ver), hex(f)));
    c.nontrivial = n >= 2;
    let hd = match call("check", || mqttbytes::check(f.iter(), usize::MAX))? {
        Ok(x) => x,
        Err(e) => return fail(format!("check refuses the complete frame {}: {e:?}", hex(f))),
    };
    ensure!(hd.frame_length() == h + n, "frame_length of {} is {}, not {}", hex(f), hd.frame_length(), h + n);
    let t = f[0] >> 4;
    match hd.packet_type() {
        Ok(pt) if (1..=14).contains(&t) => {
            ensure!(pt as u8 == t, "packet_type of {} is {pt:?}", hex(f));
        }
        Err(_) if !(1..=14).contains(&t) => {}
        r => return fail(format!("packet_type of {} is {r:?}", hex(f))),
    }
    let a = read_frame(f, ver)?;
    let b = read_per_packet(f, ver)?;
    let eq = match (&a, &b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(x), Err(y)) => n == 0 || x == y,
        _ => false,
    };
    c.label(if a.is_ok() { "accepted" } else { "rejected" });
    ensure!(eq, "{} {}: stream reader {a:?}, per-packet reader {b:?}", vname(ver), hex(f));
    Ok(())
}
