//! Generators of packets, frames, streams, topics and filters.

use crate::engine::Src;
use crate::model::*;

const CHARS: [char; 26] = [
    'a', 'b', 'c', '0', ' ', '/', '-', '_', 'A', 'Z', '.', ':', 'é', 'ß', 'ż', '€', '中', '\u{feff}', '\u{fffd}', '😀',
    '𝄞', '\u{1}', '\u{7f}', '\u{80}', '\n', '\t',
];

/// Characters close to ones with a meaning (in width, low byte, case or direction), white space, and borders of the
/// encoding's ranges.
const ODD: [char; 40] = [
    'ī', 'ģ', 'Ĥ', 'į', 'Ā', 'ġ', 'Ġ', 'ċ', '＋', '＃', '／', '＄', '﹟', '∕', '\u{85}', '\u{a0}', '\u{2003}', '\u{2028}',
    '\u{3000}', '\u{200b}', '\u{202e}', '\u{ad}', 'İ', 'ı', 'ſ', 'K', 'ﬁ', '\u{301}', '\u{7ff}', '\u{800}',
    '\u{d7ff}', '\u{e000}', '\u{fdd0}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{1ffff}', '\u{10ffff}', '\r', '\u{1f}',
];

/// Any character but NUL, mostly out of a few.
pub fn ch(s: &mut Src) -> char {
    match s.below(64) {
        v if v < 52 => CHARS[v as usize / 2],
        v if v < 60 => *s.pick(&ODD),
        v if v < 62 => {
            // one that a cast to a byte turns into one with a meaning
            let low = *s.pick(b"+#/$ \0a\n");
            char::from_u32((s.below(0x1100) as u32) << 8 | low as u32).filter(|c| *c != '\0').unwrap_or('ī')
        }
        _ => char::from_u32(s.below(0x11_0000) as u32).filter(|c| *c != '\0').unwrap_or('\u{e001}'),
    }
}

/// A string of exactly `n` bytes, cheap in choices.
pub fn sized(s: &mut Src, n: usize) -> String {
    let c = ch(s);
    let mut o = String::with_capacity(n);
    while o.len() + c.len_utf8() <= n {
        o.push(c);
    }
    while o.len() < n {
        o.push('x');
    }
    o
}

/// Lengths around where something changes.
pub fn edge_len(s: &mut Src) -> usize {
    *s.pick(&[127, 128, 126, 129, 120, 121, 122, 123, 124, 125, 130, 255, 256, 257])
}

pub fn huge_len(s: &mut Src) -> usize {
    *s.pick(&[16383, 16384, 65535, 65534, 16370, 16380, 32767, 32768])
}

/// Strings that tend to meet again elsewhere in the same packet, and ones with a meaning somewhere.
const POOL: [&str; 24] = [
    "a", "b", "u", "test", "MQTT", "MQIsdp", "/", "//", "#", "+", "$", "$SYS/x", "$share/g/t", " ", "a ", "0", "é", "e\u{301}",
    "\u{feff}", "\u{ffff}", "\u{10ffff}", "true", "utf-8", "\r\n",
];

/// A length with every size up to 300 about equally likely.
pub fn mid_len(s: &mut Src) -> usize {
    s.below(300) as usize
}

/// Any string MQTT can carry (no NUL).
pub fn text(s: &mut Src) -> String {
    match s.weighted(&[600, 100, 40, 1, 60, 8, 12, 8]) {
        4 => s.pick(&POOL).to_string(),
        6 => {
            let w = s.word();
            match s.below(5) {
                0 | 1 => w,
                2 => w + *s.pick(&["x", "/", "a/b"]),
                3 => s.pick(&["x", "/", "a/"]).to_string() + &w,
                _ => {
                    let v = s.word();
                    w + &v
                }
            }
        }
        7 => {
            let n = s.known(0, 5000) as usize;
            sized(s, n)
        }
        5 => {
            let n = mid_len(s);
            (0..n).map(|_| ch(s)).collect()
        }
        0 => {
            let n = s.below(9);
            (0..n).map(|_| ch(s)).collect()
        }
        1 => {
            let n = s.range(9, 60) as usize;
            sized(s, n)
        }
        2 => {
            let n = edge_len(s);
            sized(s, n)
        }
        _ => {
            let n = huge_len(s);
            sized(s, n)
        }
    }
}

pub fn bin(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[600, 100, 40, 1, 40, 8, 8, 8, 120]) {
        8 => text(s).into_bytes(),
        4 => s.pick(&POOL).as_bytes().to_vec(),
        6 if s.flag() => {
            let mut b = s.blob();
            let n = s.below(6) as usize;
            b.extend(s.bytes(n));
            b
        }
        6 => s.word().into_bytes(),
        7 => {
            let n = s.known(0, 5000) as usize;
            pattern(s, n)
        }
        5 => {
            let n = mid_len(s);
            s.bytes(n)
        }
        0 => {
            let n = s.below(9) as usize;
            s.bytes(n)
        }
        1 => {
            let n = s.range(9, 60) as usize;
            pattern(s, n)
        }
        2 => {
            let n = edge_len(s);
            pattern(s, n)
        }
        _ => {
            let n = huge_len(s);
            pattern(s, n)
        }
    }
}

/// `n` bytes, no two neighbouring positions alike, from two choices
pub fn pattern(s: &mut Src, n: usize) -> Vec<u8> {
    let a = s.byte();
    let d = (s.byte() | 1) as usize;
    (0..n).map(|i| (a as usize + i * d + (i >> 8)) as u8).collect()
}

pub fn topic(s: &mut Src) -> String {
    loop {
        let t = match s.weighted(&[100, 60, 10, 2]) {
            3 => {
                let n = s.range(1, 4) as usize;
                let mut levels = vec![];
                for _ in 0..n {
                    levels.push(if s.flag() { s.word() } else { s.pick(&["a", "b", ""]).to_string() });
                }
                levels.join("/")
            }
            0 => {
                let n = if s.chance(1, 12) { s.range(5, 40) } else { s.range(1, 4) };
                let mut levels = vec![];
                for _ in 0..n {
                    levels.push(*s.pick(&["a", "b", "", "sensor", "é", "$x", "0", "日本", " "]));
                }
                levels.join("/")
            }
            1 => text(s),
            _ => format!("${}", text(s)),
        };
        let t: String = t.chars().filter(|c| *c != '+' && *c != '#').collect();
        if t.len() <= 65535 && !t.is_empty() {
            return t;
        }
        // an empty choice sequence has to end
        if t.is_empty() {
            return "a".into();
        }
    }
}

pub fn filter(s: &mut Src) -> String {
    let mut levels: Vec<String> = vec![];
    if s.chance(1, 12) {
        let w: String = text(s).chars().filter(|c| *c != '+' && *c != '#').collect();
        if w.len() > 65000 || s.flag() {
            return if w.is_empty() { "a".into() } else { w };
        }
        levels.push(w);
    } else if s.chance(1, 60) {
        let w: String = s.word().chars().filter(|c| *c != '+' && *c != '#').collect();
        levels.push(w);
    } else if s.chance(1, 40) {
        levels.push(topic(s));
        if levels[0].len() > 65000 {
            return levels.pop().unwrap();
        }
    }
    let n = if s.chance(1, 12) { s.range(5, 40) } else { s.range(1, 4) };
    for _ in 0..n {
        levels.push(s.pick(&["a", "+", "b", "", "sensor", "é", "$x", "日本"]).to_string());
    }
    if s.chance(1, 3) {
        levels.push("#".into());
    }
    let f = levels.join("/");
    if f.is_empty() {
        "a".into()
    } else {
        f
    }
}

pub fn num16(s: &mut Src) -> u16 {
    match s.weighted(&[20, 30, 20, 20, 2]) {
        4 => s.known(1, 65535) as u16,
        3 => (s.near_bit(16) as u16).max(1),
        0 => s.range(1, 9) as u16,
        1 => *s.pick(&[1, 255, 256, 257, 0x7fff, 0x8000, 0xff00, 0x0a00, 65534, 65535]),
        _ => s.range(1, 65535) as u16,
    }
}
pub fn num32(s: &mut Src) -> u32 {
    match s.weighted(&[20, 30, 20, 40, 3]) {
        4 => s.known(1, u32::MAX as u64) as u32,
        3 => (s.near_bit(32) as u32).max(1),
        0 => s.range(1, 9) as u32,
        1 => *s.pick(&[1, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0x0102_0304, u32::MAX - 1, u32::MAX]),
        _ => s.range(1, u32::MAX as u64) as u32,
    }
}
pub fn num_var(s: &mut Src) -> u32 {
    match s.weighted(&[20, 40, 20, 20, 3]) {
        4 => s.known(1, 268_435_455) as u32,
        3 => (s.near_bit(28) as u32).max(1),
        0 => s.range(1, 9) as u32,
        1 => *s.pick(&[127, 128, 16383, 16384, 2_097_151, 2_097_152, 268_435_455, 268_435_454, 129, 16385, 2_097_153]),
        _ => s.range(1, 268_435_455) as u32,
    }
}

pub fn prop_val(s: &mut Src, kind: char) -> PVal {
    match kind {
        'b' => PVal::U8(s.below(2) as u8),
        'h' => PVal::U16(num16(s)),
        'w' => PVal::U32(num32(s)),
        'v' => PVal::Var(num_var(s)),
        's' => PVal::Str(text(s)),
        'd' => PVal::Bin(bin(s)),
        _ => PVal::Pair(text(s), text(s)),
    }
}

/// A value the property may have: like `prop_val`, and zero where MQTT 5 allows it.
pub fn prop_of(s: &mut Src, id: u8) -> PVal {
    let v = prop_val(s, prop_kind(id).unwrap());
    // session expiry, message expiry, will delay, topic alias maximum, server keep alive
    if matches!(id, 17 | 2 | 24 | 34 | 19) && s.chance(1, 8) {
        return if matches!(id, 34 | 19) { PVal::U16(0) } else { PVal::U32(0) };
    }
    v
}

/// Properties MQTT 5 allows in `ty`, in a random order.
pub fn props(s: &mut Src, ty: u8) -> Props {
    let list = allowed(ty);
    let (num, den) = match s.weighted(&[3, 4, 2, 1]) {
        0 => return vec![],
        1 => (1, 3),
        2 => (3, 4),
        _ => (1, 1),
    };
    let mut out: Props = vec![];
    for id in list {
        if s.chance(num, den) {
            let n = if !repeatable(ty, *id) {
                1
            } else {
                match s.weighted(&[60, 6, 1]) {
                    0 => s.range(1, 3),
                    1 => s.range(4, 20),
                    _ => s.range(21, 300),
                }
            };
            let style = if n > 2 { s.below(8) } else { 7 };
            if style < 3 {
                // all alike, all different or hardly anything
                for i in 0..n {
                    let letter = ((b'a' + (i % 26) as u8) as char).to_string();
                    let v = match (id, style) {
                        (11, 0) => PVal::Var(1 + i as u32),
                        (11, 1) => PVal::Var(n as u32 - i as u32),
                        (11, _) => PVal::Var(1),
                        (_, 0) => PVal::Pair(letter, String::new()),
                        (_, 1) => PVal::Pair("k".into(), letter),
                        _ => PVal::Pair(String::new(), String::new()),
                    };
                    out.push((*id, v));
                }
                continue;
            }
            for i in 0..n {
                // equal neighbours count like any others
                let again = n > 1 && i > 0 && s.chance(1, 6);
                let v = if again { out[out.len() - 1].1.clone() } else { prop_of(s, *id) };
                out.push((*id, v));
            }
        }
    }
    // random order: swaps
    if out.len() > 1 && s.flag() {
        for i in (1..out.len()).rev() {
            let j = i - s.below(i as u64 + 1) as usize;
            out.swap(i, j);
        }
    }
    out
}

fn vprops(s: &mut Src, ver: Ver, ty: u8) -> Props {
    if ver == V5 {
        props(s, ty)
    } else {
        vec![]
    }
}

fn few(s: &mut Src) -> u64 {
    match s.weighted(&[200, 30, 10, 2, 2]) {
        4 => s.known(1, 400),
        0 => s.range(1, 4),
        1 => s.range(5, 20),
        2 => s.range(100, 140),
        _ => s.range(240, 700),
    }
}

/// Every packet type equally often.
pub fn model(s: &mut Src, ver: Ver) -> M {
    let ty = s.range(1, 14) as u8;
    model_of(s, ver, ty)
}

pub fn model_of(s: &mut Src, ver: Ver, ty: u8) -> M {
    match ty {
        CONNECT => {
            let level = if ver == V5 && !s.chance(1, 6) { 5 } else { 4 };
            connect(s, ver, level)
        }
        CONNACK => {
            let code = *s.pick(codes(ver, CONNACK));
            M::ConnAck { sp: code == 0 && s.flag(), code, props: vprops(s, ver, ty) }
        }
        PUBLISH => {
            let qos = s.below(3) as u8;
            let dup = qos > 0 && s.flag();
            let retain = s.flag();
            let mut topic = topic(s);
            let pkid = if qos > 0 { num16(s) } else { 0 };
            let props = vprops(s, ver, ty);
            // an alias may stand in for the topic
            if props.iter().any(|p| p.0 == 35) && s.chance(1, 4) {
                topic = String::new();
            }
            let payload = match s.weighted(&[600, 400, 30, 1, 30]) {
                3 => {
                    let n = *s.pick(&[16383, 16384, 32768, 65534, 65535, 65536, 65537, 70_000, 131_072, 200_000]);
                    pattern(s, n)
                }
                4 => {
                    // one value throughout
                    let n = mid_len(s);
                    vec![*s.pick(&[0, 0xff, 0x80, 0x30, b'\n', b' ']); n]
                }
                0 => bin(s),
                1 => {
                    let n = s.below(200) as usize;
                    pattern(s, n)
                }
                _ => {
                    let n = s.below(20000) as usize;
                    pattern(s, n)
                }
            };
            let payload = if s.chance(1, 40) { topic.clone().into_bytes() } else { payload };
            M::Publish { dup, qos, retain, topic, pkid, props, payload }
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            let pkid = num16(s);
            let reason = if ver == V5 { *s.pick(codes(ver, ty)) } else { 0 };
            M::Ack { ty, pkid, reason, props: vprops(s, ver, ty) }
        }
        SUBSCRIBE => {
            let pkid = num16(s);
            let props = vprops(s, ver, ty);
            let n = few(s);
            let mut filters: Vec<(String, u8)> = vec![];
            for _ in 0..n {
                let f = if !filters.is_empty() && s.chance(1, 10) { filters[0].0.clone() } else { filter(s) };
                let mut o = s.below(3) as u8;
                if ver == V5 {
                    o |= (s.below(4) as u8) << 2 | (s.below(3) as u8) << 4;
                }
                filters.push((f, o));
            }
            M::Subscribe { pkid, props, filters }
        }
        SUBACK => {
            let pkid = num16(s);
            let props = vprops(s, ver, ty);
            let n = few(s);
            M::SubAck { pkid, props, codes: (0..n).map(|_| *s.pick(codes(ver, ty))).collect() }
        }
        UNSUBSCRIBE => {
            let pkid = num16(s);
            let props = vprops(s, ver, ty);
            let n = few(s);
            let mut filters: Vec<String> = vec![];
            for _ in 0..n {
                let f = if !filters.is_empty() && s.chance(1, 10) { filters[0].clone() } else { filter(s) };
                filters.push(f);
            }
            M::Unsubscribe { pkid, props, filters }
        }
        UNSUBACK => {
            let pkid = num16(s);
            let props = vprops(s, ver, ty);
            let n = if ver == V5 { few(s) } else { 0 };
            M::UnsubAck { pkid, props, codes: (0..n).map(|_| *s.pick(codes(ver, ty))).collect() }
        }
        PINGREQ => M::PingReq,
        PINGRESP => M::PingResp,
        _ => {
            let reason = if ver == V5 { *s.pick(codes(ver, DISCONNECT)) } else { 0 };
            M::Disconnect { reason, props: vprops(s, ver, DISCONNECT) }
        }
    }
}

pub fn connect(s: &mut Src, ver: Ver, level: u8) -> M {
    let clean = !s.flag();
    let keep_alive = if s.chance(1, 8) { 0 } else { num16(s) };
    let mut client_id = text(s);
    let with_props = ver == V5 && level == 5;
    if client_id.is_empty() && !clean && level == 4 {
        client_id.push('c');
    }
    let will = if s.flag() {
        Some(Will {
            topic: topic(s),
            msg: bin(s),
            qos: s.below(3) as u8,
            retain: s.flag(),
            props: if with_props { props(s, WILL) } else { vec![] },
        })
    } else {
        None
    };
    let ne = |mut t: String| {
        if t.is_empty() {
            t.push('u');
        }
        t
    };
    let (user, pass) = match s.weighted(&[4, 4, 2, 1]) {
        0 => (None, None),
        1 => (Some(ne(text(s))), Some(ne(text(s)))),
        2 => (Some(ne(text(s))), None),
        _ if level == 5 => (None, Some(ne(text(s)))),
        _ => (None, None),
    };
    let props = if with_props { props(s, CONNECT) } else { vec![] };
    let (mut will, mut user, mut pass) = (will, user, pass);
    if s.chance(1, 8) {
        // the same text in two places
        let from = s.below(4);
        let t: String = match (from, &will, &user, &pass) {
            (0, Some(w), _, _) => w.topic.clone(),
            (1, _, Some(u), _) => u.clone(),
            (2, _, _, Some(p)) => p.clone(),
            _ => client_id.clone(),
        };
        if !t.is_empty() {
            let to = s.below(5);
            match (to, &mut will, &mut user, &mut pass) {
                (0, Some(w), _, _) => w.msg = t.into_bytes(),
                (1, Some(w), _, _) if !t.contains(['+', '#']) => w.topic = t,
                (2, _, Some(u), _) => *u = t,
                (3, _, _, Some(p)) => *p = t,
                _ => client_id = t,
            }
        }
    }
    M::Connect { level, keep_alive, client_id, clean, will, user, pass, props }
}

/// Login forms only the wire has: a flag set for an empty field.
pub fn wire_login(s: &mut Src, m: &mut M) {
    if let M::Connect { level, user, pass, .. } = m {
        match s.below(12) {
            1 => *user = Some(String::new()),
            2 => *pass = Some(String::new()),
            3 => {
                *user = Some(String::new());
                *pass = Some(String::new());
            }
            _ => {}
        }
        if *level == 4 && pass.is_some() && user.is_none() {
            *user = Some("u".into());
        }
    }
}

/// Which optional encodings and contents make a packet more than the plainest one.
pub fn nontrivial(m: &M) -> bool {
    match m {
        M::Connect { will, user, pass, props, .. } => {
            will.is_some() || user.is_some() || pass.is_some() || !props.is_empty()
        }
        M::ConnAck { code, props, .. } => *code != 0 || !props.is_empty(),
        M::Publish { payload, props, .. } => !payload.is_empty() || !props.is_empty(),
        M::Ack { pkid, .. } => *pkid > 1,
        M::Subscribe { .. } | M::SubAck { .. } | M::Unsubscribe { .. } => true,
        M::UnsubAck { pkid, .. } => *pkid > 1,
        M::PingReq | M::PingResp => false,
        M::Disconnect { reason, props } => *reason != 0 || !props.is_empty(),
    }
}

fn tweak_text(s: &mut Src, t: &mut String) {
    let n = t.chars().count() as u64;
    match s.below(6) {
        0 => t.push(ch(s)),
        1 if n > 0 => {
            t.pop();
        }
        2 if n > 0 => {
            // one character
            let i = s.below(n) as usize;
            let c = ch(s);
            *t = t.chars().enumerate().map(|(k, x)| if k == i { c } else { x }).collect();
        }
        3 if t.is_ascii() && n > 0 => {
            // case
            let i = s.below(n) as usize;
            *t = t
                .chars()
                .enumerate()
                .map(|(k, x)| {
                    if k != i {
                        x
                    } else if x.is_ascii_lowercase() {
                        x.to_ascii_uppercase()
                    } else {
                        x.to_ascii_lowercase()
                    }
                })
                .collect();
        }
        4 => t.insert(0, ch(s)),
        _ => *t = text(s),
    }
}

fn tweak_bin(s: &mut Src, b: &mut Vec<u8>) {
    if b.is_empty() || s.chance(1, 4) {
        b.push(s.byte());
    } else if s.chance(1, 3) {
        b.pop();
    } else {
        let i = s.below(b.len() as u64) as usize;
        b[i] ^= 1 << s.below(8);
    }
}

fn tweak_num(s: &mut Src, n: u64, bits: u64) -> u64 {
    let m = (1u64 << bits) - 1;
    match s.below(3) {
        0 => n ^ 1 << s.below(bits),
        1 => n.wrapping_add(1) & m,
        _ => (n & 0xff) << 8 & m | n >> 8,
    }
}

fn tweak_list<T: Clone>(s: &mut Src, v: &mut Vec<T>) -> bool {
    if v.len() > 1 && s.chance(1, 3) {
        let i = s.below(v.len() as u64 - 1) as usize;
        match s.below(3) {
            0 => v.swap(i, i + 1),
            1 => {
                v.remove(i);
            }
            _ => {
                let x = v[i].clone();
                v.insert(i, x);
            }
        }
        return true;
    }
    false
}

fn tweak_props(s: &mut Src, p: &mut Props, ty: u8) {
    if p.is_empty() || s.chance(1, 4) {
        // one more, if the type has one left
        let left: Vec<u8> =
            allowed(ty).iter().copied().filter(|id| repeatable(ty, *id) || !p.iter().any(|q| q.0 == *id)).collect();
        if !left.is_empty() {
            let id = *s.pick(&left);
            let v = prop_of(s, id);
            p.push((id, v));
        }
        return;
    }
    let i = s.below(p.len() as u64) as usize;
    if s.chance(1, 4) {
        p.remove(i);
        return;
    }
    if repeatable(ty, p[i].0) && s.chance(1, 2) {
        // the order of a list, or one more of the same
        let same: Vec<usize> = (0..p.len()).filter(|k| p[*k].0 == p[i].0).collect();
        let j = *s.pick(&same);
        if s.chance(1, 4) {
            let x = p[i].clone();
            p.insert(j, x);
        } else {
            p.swap(i, j);
        }
        return;
    }
    match &mut p[i].1 {
        PVal::U8(x) => *x ^= 1,
        PVal::U16(x) => *x = tweak_num(s, *x as u64, 16).max(1) as u16,
        PVal::U32(x) => *x = tweak_num(s, *x as u64, 32).max(1) as u32,
        PVal::Var(x) => *x = tweak_num(s, *x as u64, 28).max(1) as u32,
        PVal::Str(t) => tweak_text(s, t),
        PVal::Bin(b) => tweak_bin(s, b),
        PVal::Pair(a, b) => match s.below(3) {
            0 => tweak_text(s, a),
            1 => tweak_text(s, b),
            _ => std::mem::swap(a, b),
        },
    }
}

/// The smallest edit of one field; what comes out may be the same packet again.
pub fn tweak(s: &mut Src, m: &mut M, ver: Ver) {
    let ty = m.ty();
    let level5 = !matches!(m, M::Connect { level: 4, .. });
    if ver == V5 && level5 && s.chance(2, 5) {
        if let Some(p) = m.props_mut() {
            return tweak_props(s, p, ty);
        }
    }
    let any_code = |s: &mut Src, ty: u8| *s.pick(codes(ver, ty));
    let id = |s: &mut Src, p: &mut u16| *p = tweak_num(s, *p as u64, 16).max(1) as u16;
    match m {
        M::Connect { keep_alive, client_id, clean, will, user, pass, .. } => match s.below(7) {
            0 => *keep_alive = tweak_num(s, *keep_alive as u64, 16) as u16,
            1 => tweak_text(s, client_id),
            2 => *clean = !*clean,
            3 => match user {
                Some(u) => tweak_text(s, u),
                None => *user = Some("u".into()),
            },
            4 => match pass {
                Some(u) => tweak_text(s, u),
                None => *pass = Some("p".into()),
            },
            _ => match will {
                Some(w) => match s.below(6) {
                    0 => tweak_text(s, &mut w.topic),
                    1 => tweak_bin(s, &mut w.msg),
                    2 => w.qos = s.below(3) as u8,
                    3 => w.retain = !w.retain,
                    4 if ver == V5 && level5 => tweak_props(s, &mut w.props, WILL),
                    _ => *will = None,
                },
                None => {
                    *will =
                        Some(Will { topic: "t".into(), msg: vec![], qos: s.below(3) as u8, retain: s.flag(), props: vec![] })
                }
            },
        },
        M::ConnAck { sp, code, .. } => {
            if s.flag() {
                *sp = !*sp
            } else {
                *code = any_code(s, CONNACK)
            }
        }
        M::Publish { dup, qos, retain, topic, pkid, payload, .. } => match s.below(6) {
            0 => *dup = !*dup,
            1 => *qos = s.below(3) as u8,
            2 => *retain = !*retain,
            3 => tweak_text(s, topic),
            4 => id(s, pkid),
            _ => tweak_bin(s, payload),
        },
        M::Ack { pkid, reason, ty, .. } => {
            if ver == V4 || s.flag() {
                id(s, pkid)
            } else {
                *reason = any_code(s, *ty)
            }
        }
        M::Subscribe { pkid, filters, .. } => {
            if s.chance(1, 4) {
                id(s, pkid)
            } else if !tweak_list(s, filters) && !filters.is_empty() {
                let i = s.below(filters.len() as u64) as usize;
                if s.flag() {
                    tweak_text(s, &mut filters[i].0);
                } else {
                    let o = filters[i].1;
                    filters[i].1 = match s.below(4) {
                        0 => o & !3 | s.below(3) as u8,
                        _ if ver == V4 => o & !3 | s.below(3) as u8,
                        1 => o ^ 4,
                        2 => o ^ 8,
                        _ => o & !0x30 | (s.below(3) as u8) << 4,
                    };
                }
            }
        }
        M::SubAck { pkid, codes: c, .. } => {
            if s.chance(1, 4) {
                id(s, pkid)
            } else if !tweak_list(s, c) && !c.is_empty() {
                let i = s.below(c.len() as u64) as usize;
                c[i] = any_code(s, SUBACK);
            }
        }
        M::Unsubscribe { pkid, filters, .. } => {
            if s.chance(1, 4) {
                id(s, pkid)
            } else if !tweak_list(s, filters) && !filters.is_empty() {
                let i = s.below(filters.len() as u64) as usize;
                tweak_text(s, &mut filters[i]);
            }
        }
        M::UnsubAck { pkid, codes: c, .. } => {
            if ver == V4 || s.chance(1, 4) {
                id(s, pkid)
            } else if !tweak_list(s, c) && !c.is_empty() {
                let i = s.below(c.len() as u64) as usize;
                c[i] = any_code(s, UNSUBACK);
            }
        }
        M::Disconnect { reason, .. } => {
            if ver == V5 {
                *reason = any_code(s, DISCONNECT)
            }
        }
        M::PingReq | M::PingResp => {}
    }
}

/// Packets that have much in common with `m`: what a cache or a connection state would confuse.
pub fn sibling(s: &mut Src, m: &M, ver: Ver) -> M {
    let other = if s.chance(1, 6) { s.range(1, 14) as u8 } else { m.ty() };
    let mut o = if s.chance(2, 3) && other == m.ty() { m.clone() } else { model_of(s, ver, other) };
    // the identifiers in common
    let id_of = |m: &M| match m {
        M::Publish { pkid, .. }
        | M::Ack { pkid, .. }
        | M::Subscribe { pkid, .. }
        | M::SubAck { pkid, .. }
        | M::Unsubscribe { pkid, .. }
        | M::UnsubAck { pkid, .. } => *pkid,
        _ => 0,
    };
    let id = id_of(m);
    if id != 0 && s.chance(3, 4) {
        match &mut o {
            M::Publish { pkid, qos, .. } if *qos > 0 => *pkid = id,
            M::Ack { pkid, .. }
            | M::Subscribe { pkid, .. }
            | M::SubAck { pkid, .. }
            | M::Unsubscribe { pkid, .. }
            | M::UnsubAck { pkid, .. } => *pkid = id,
            _ => {}
        }
    }
    // one field different
    let which = s.below(5);
    match &mut o {
        M::Publish { topic: t, payload, qos, dup, retain, props, .. } => match which {
            0 if ver == V5 && props.iter().any(|p| p.0 == 35) => *t = String::new(),
            0 | 1 => *t = topic(s),
            2 => *payload = bin(s),
            3 => *retain = !*retain,
            _ => *dup = *qos > 0 && !*dup,
        },
        M::Connect { client_id, keep_alive, will, user, clean, level, .. } => match which {
            0 => *client_id = text(s),
            1 => *keep_alive = num16(s),
            2 => *will = None,
            3 => {
                if user.is_some() {
                    *user = Some("other".into())
                }
            }
            _ => *clean = !*clean || (*level == 4 && client_id.is_empty()),
        },
        M::ConnAck { sp, code, .. } => *sp = *code == 0 && !*sp,
        M::Ack { ty, reason, .. } => {
            if ver == V5 {
                *reason = *s.pick(codes(ver, *ty))
            }
        }
        M::Subscribe { filters, .. } => filters[0].0 = filter(s),
        M::SubAck { codes: c, .. } => c[0] = *s.pick(codes(ver, SUBACK)),
        M::Unsubscribe { filters, .. } => filters[0] = filter(s),
        M::UnsubAck { codes: c, .. } => {
            if ver == V5 && !c.is_empty() {
                c[0] = *s.pick(codes(ver, UNSUBACK))
            }
        }
        _ => {}
    }
    // properties: as they were, fewer, or one other value
    let theirs: Props = match m.clone().props_mut() {
        Some(p) => p.clone(),
        None => vec![],
    };
    let ty = o.ty();
    let level5 = !matches!(&o, M::Connect { level: 4, .. });
    if ver == V5 && level5 {
        let k = s.below(4);
        if let Some(p) = o.props_mut() {
            match k {
                0 => *p = theirs.into_iter().filter(|q| allowed(ty).contains(&q.0)).collect(),
                1 => {
                    if !p.is_empty() {
                        let i = s.below(p.len() as u64) as usize;
                        p.remove(i);
                    }
                }
                2 => {
                    if !p.is_empty() {
                        let i = s.below(p.len() as u64) as usize;
                        p[i].1 = prop_of(s, p[i].0);
                    }
                }
                _ => {}
            }
        }
    }
    o
}

// ---------------------------------------------------------------- frames MQTT does not allow

/// One edit at packet level that may leave MQTT.
pub fn wild(s: &mut Src, m: &mut M, ver: Ver) {
    let ty = m.ty();
    if ver == V5 && s.chance(2, 5) {
        // property level
        let (list, pty) = match m {
            M::Connect { will: Some(w), .. } if s.flag() => (&mut w.props, WILL),
            m => match m.props_mut() {
                Some(p) => (p, ty),
                None => return,
            },
        };
        match s.below(4) {
            0 => {
                // any known property, allowed or not
                let id = *s.pick(&ALL_PROPS);
                let v = prop_val(s, prop_kind(id).unwrap());
                let at = s.below(list.len() as u64 + 1) as usize;
                list.insert(at, (id, v));
            }
            1 => {
                // any id, a value of some kind
                let id = s.byte();
                let k = *s.pick(&['b', 'h', 'w', 'v', 's', 'd', 'p']);
                let v = prop_val(s, k);
                let at = s.below(list.len() as u64 + 1) as usize;
                list.insert(at, (id, v));
            }
            2 => {
                if !list.is_empty() {
                    let i = s.below(list.len() as u64) as usize;
                    let id = list[i].0;
                    let v = prop_val(s, prop_kind(id).unwrap_or('b'));
                    list.push((id, v));
                }
            }
            _ => {
                let al = allowed(pty);
                if !al.is_empty() {
                    // the extreme values
                    let id = *s.pick(al);
                    let v = match prop_kind(id).unwrap() {
                        'b' => PVal::U8(s.byte()),
                        'h' => PVal::U16(*s.pick(&[0, 65535])),
                        'w' => PVal::U32(*s.pick(&[0, u32::MAX])),
                        'v' => PVal::Var(0),
                        's' => PVal::Str("a\0b".into()),
                        'd' => PVal::Bin(vec![]),
                        _ => PVal::Pair(String::new(), String::new()),
                    };
                    list.retain(|p| p.0 != id);
                    list.push((id, v));
                }
            }
        }
        return;
    }
    let b = s.byte();
    let which = s.below(4);
    match m {
        M::Connect { level, will, user, pass, client_id, .. } => match which {
            0 => *level = b,
            1 => match will {
                Some(w) => w.qos = 3,
                None => *client_id = String::new(),
            },
            2 => {
                *user = if s.flag() { Some(String::new()) } else { None };
            }
            _ => *pass = if s.flag() { Some(String::new()) } else { Some("p".into()) },
        },
        M::ConnAck { code, sp, .. } => {
            *code = b;
            *sp = s.flag();
        }
        M::Publish { qos, topic, pkid, dup, .. } => match which {
            0 => *qos = 3,
            1 => *topic = s.pick(&["", "a/+", "#", "+", "a\0"]).to_string(),
            2 => *pkid = 0,
            _ => *dup = true,
        },
        M::Ack { pkid, reason, .. } => {
            if s.flag() {
                *pkid = 0
            } else {
                *reason = b
            }
        }
        M::Subscribe { pkid, filters, .. } => match which {
            0 => *pkid = 0,
            1 => filters.clear(),
            2 => {
                let i = s.below(filters.len() as u64) as usize;
                filters[i].0 = s.pick(&["", "a+", "#/a", "a#", "\0"]).to_string();
            }
            _ => {
                let i = s.below(filters.len() as u64) as usize;
                filters[i].1 = b;
            }
        },
        M::SubAck { codes, pkid, .. } | M::UnsubAck { codes, pkid, .. } => match which {
            0 => *pkid = 0,
            1 => codes.clear(),
            _ => {
                let i = s.below(codes.len() as u64 + 1) as usize;
                codes.insert(i, b);
            }
        },
        M::Unsubscribe { pkid, filters, .. } => match which {
            0 => *pkid = 0,
            1 => filters.clear(),
            _ => filters.push(s.pick(&["", "a+", "#/a", "a#"]).to_string()),
        },
        M::Disconnect { reason, .. } => *reason = b,
        M::PingReq | M::PingResp => {}
    }
}

/// One edit that may leave MQTT but that the public fields of the packet can hold.
pub fn free(s: &mut Src, m: &mut M, ver: Ver) {
    const TEXTS: [&str; 9] = ["", "a/+", "#", "+", "a\0", "#/a", "a#", "\u{feff}", "$share//"];
    let text = |s: &mut Src| s.pick(&TEXTS).to_string();
    let ty = m.ty();
    if ver == V5 && s.chance(2, 5) {
        let (list, pty) = match m {
            M::Connect { will: Some(w), .. } if s.flag() => (&mut w.props, WILL),
            m => match m.props_mut() {
                Some(p) => (p, ty),
                None => return,
            },
        };
        let al = allowed(pty);
        if al.is_empty() {
            return;
        }
        let id = *s.pick(al);
        let v = match prop_kind(id).unwrap() {
            'b' => PVal::U8(s.byte()),
            'h' => PVal::U16(*s.pick(&[0, 1, 65535])),
            'w' => PVal::U32(*s.pick(&[0, 1, u32::MAX])),
            'v' => PVal::Var(*s.pick(&[0, MAX_VAR as u32 + 1, u32::MAX])),
            's' => PVal::Str(text(s)),
            'd' => PVal::Bin(vec![]),
            _ => PVal::Pair(text(s), text(s)),
        };
        if !repeatable(pty, id) {
            list.retain(|p| p.0 != id);
        }
        list.push((id, v));
        list.sort_by_key(|p| p.0);
        return;
    }
    let which = s.below(4);
    match m {
        M::Connect { level, will, user, pass, client_id, keep_alive, clean, .. } => match which {
            0 => *level = if *level == 4 { 5 } else { 4 },
            1 => match will {
                Some(w) => w.topic = text(s),
                None => (*client_id, *clean) = (text(s), false),
            },
            2 => *keep_alive = 0,
            _ => (*user, *pass) = (Some(text(s)), Some(text(s))),
        },
        M::ConnAck { code, sp, .. } => {
            *code = *s.pick(codes(ver, CONNACK));
            *sp = true;
        }
        M::Publish { qos, topic, pkid, dup, .. } => match which {
            0 => (*dup, *qos) = (true, 0),
            1 => *topic = text(s),
            2 => *pkid = 0,
            _ => (*pkid, *qos) = (num16(s), 0),
        },
        M::Ack { pkid, .. } => *pkid = 0,
        M::Subscribe { pkid, filters, .. } => match which {
            0 => *pkid = 0,
            1 => filters.clear(),
            _ => filters.push((text(s), 0)),
        },
        M::SubAck { codes, pkid, .. } | M::UnsubAck { codes, pkid, .. } => match which {
            0 | 1 => *pkid = 0,
            _ => codes.clear(),
        },
        M::Unsubscribe { pkid, filters, .. } => match which {
            0 => *pkid = 0,
            1 => filters.clear(),
            _ => filters.push(text(s)),
        },
        M::Disconnect { .. } | M::PingReq | M::PingResp => {}
    }
}

const BAD_UTF8: [&[u8]; 8] = [
    &[0xff],
    &[0x80],
    &[0xc3],
    &[0xc0, 0x80],
    &[0xed, 0xa0, 0x80],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xe2, 0x82],
    &[0xf0, 0x9f, 0x98],
];

/// Byte-level edits of an encoded body.
pub fn mutate(s: &mut Src, b1: &mut u8, e: &mut Enc) {
    let body = &mut e.body;
    let marks = &e.marks;
    let pickm = |s: &mut Src, ks: &[K]| -> Option<Mark> {
        let c: Vec<Mark> = marks.iter().copied().filter(|m| ks.contains(&m.kind)).collect();
        if c.is_empty() {
            None
        } else {
            Some(c[s.below(c.len() as u64) as usize])
        }
    };
    let op = s.weighted(&[6, 6, 6, 4, 4, 4, 4, 3, 5, 4, 4, 3, 3]);
    match op {
        0 => {
            // truncate
            if !body.is_empty() {
                let n = if marks.is_empty() || s.flag() {
                    s.below(body.len() as u64) as usize
                } else {
                    // at a field border
                    marks[s.below(marks.len() as u64) as usize].at.min(body.len())
                };
                body.truncate(n);
            }
        }
        1 => {
            // a string or list length that lies
            if let Some(m) = pickm(s, &[K::Len16]) {
                if m.at + 2 <= body.len() {
                    let old = u16::from_be_bytes([body[m.at], body[m.at + 1]]) as i64;
                    let left = (body.len() - m.at - 2) as i64;
                    let new = match s.below(6) {
                        0 => old + 1,
                        1 => old - 1,
                        2 => left + 1,
                        3 => left,
                        4 => 65535,
                        _ => s.below(65536) as i64,
                    };
                    let new = (new.clamp(0, 65535) as u16).to_be_bytes();
                    body[m.at..m.at + 2].copy_from_slice(&new);
                }
            }
        }
        2 => {
            // property length or other variable byte integer
            if let Some(m) = pickm(s, &[K::PropLen, K::PropLen, K::VarVal]) {
                if m.at + m.len <= body.len() {
                    let mut old = 0i64;
                    for i in 0..m.len {
                        old |= ((body[m.at + i] & 0x7f) as i64) << (7 * i);
                    }
                    let left = (body.len() - m.at - m.len) as i64;
                    let enc = match s.below(9) {
                        0 => var(((old + 1) as usize).min(MAX_VAR)),
                        1 => var((old - 1).max(0) as usize),
                        2 => var(((left + 1) as usize).min(MAX_VAR)),
                        3 => var((left as usize).min(MAX_VAR)),
                        4 => var(MAX_VAR),
                        5 => vec![0x80, 0x80, 0x80, 0x80, 0x01],
                        6 => vec![0xff; s.range(1, 5) as usize],
                        7 => {
                            let w = s.range(2, 4) as usize;
                            var_wide(old as usize, w)
                        }
                        _ => {
                            let n = s.below(300);
                            var(n as usize)
                        }
                    };
                    body.splice(m.at..m.at + m.len, enc);
                }
            }
        }
        3 => {
            // a property id
            if let Some(m) = pickm(s, &[K::PropId]) {
                if m.at < body.len() {
                    body[m.at] = if s.flag() { *s.pick(&ALL_PROPS) } else { s.byte() };
                }
            }
        }
        4 => {
            // codes, flags, options, level
            if let Some(m) = pickm(s, &[K::Code, K::Flags, K::Opts, K::Level, K::Pkid]) {
                if m.at < body.len() {
                    let b = s.byte();
                    if s.flag() {
                        body[m.at] = b;
                    } else {
                        body[m.at] ^= 1 << (b & 7);
                    }
                }
            }
        }
        5 => {
            // not UTF-8
            if let Some(m) = pickm(s, &[K::Text]) {
                let bad = *s.pick(&BAD_UTF8);
                if m.len >= bad.len() && m.at + m.len <= body.len() {
                    let o = s.below((m.len - bad.len()) as u64 + 1) as usize;
                    body[m.at + o..m.at + o + bad.len()].copy_from_slice(bad);
                }
            }
        }
        6 => {
            // random byte
            if !body.is_empty() {
                let i = s.below(body.len() as u64) as usize;
                body[i] = *s.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 3, 4, 5, 38, 11, 31]);
            }
        }
        7 => {
            if !body.is_empty() {
                let i = s.below(body.len() as u64) as usize;
                body[i] ^= 1 << s.below(8);
            }
        }
        8 => {
            // first byte
            *b1 = match s.below(3) {
                0 => (*b1 & 0xf0) | s.below(16) as u8,
                1 => (*b1 & 0x0f) | (s.below(16) as u8) << 4,
                _ => s.byte(),
            };
        }
        9 => {
            // append
            let n = s.range(1, 6) as usize;
            let v = s.bytes(n);
            body.extend(v);
        }
        10 => {
            // insert
            let i = s.below(body.len() as u64 + 1) as usize;
            let n = s.range(1, 4) as usize;
            let v = s.bytes(n);
            body.splice(i..i, v);
        }
        11 => {
            // delete
            if !body.is_empty() {
                let i = s.below(body.len() as u64) as usize;
                let n = s.range(1, 4) as usize;
                let end = (i + n).min(body.len());
                body.drain(i..end);
            }
        }
        _ => {
            // duplicate a range
            if !body.is_empty() {
                let i = s.below(body.len() as u64) as usize;
                let n = s.range(1, 12) as usize;
                let end = (i + n).min(body.len());
                let v = body[i..end].to_vec();
                body.splice(end..end, v);
            }
        }
    }
}

pub const F_VALID: &str = "from: valid packet";
pub const F_WILD: &str = "from: packet-level edit";
pub const F_MUT: &str = "from: byte-level edit";
pub const F_RAND: &str = "from: random body";

/// One complete frame of any quality.
pub fn any_frame(s: &mut Src, ver: Ver) -> (Vec<u8>, &'static str) {
    any_frame_w(s, ver, &[20, 25, 45, 10])
}

pub fn bad_frame(s: &mut Src, ver: Ver) -> (Vec<u8>, &'static str) {
    any_frame_w(s, ver, &[0, 30, 60, 10])
}

fn any_frame_w(s: &mut Src, ver: Ver, w: &[u32]) -> (Vec<u8>, &'static str) {
    let kind = s.weighted(w);
    if kind == 3 {
        let ty = s.range(1, 14) as u8;
        let b1 = match s.below(4) {
            0 => s.byte(),
            1 => ty << 4 | s.below(16) as u8,
            _ => ty << 4 | if matches!(ty, PUBREL | SUBSCRIBE | UNSUBSCRIBE) { 2 } else { 0 },
        };
        let n = s.below(40) as usize;
        let body = match s.below(2) {
            0 => s.bytes(n),
            _ => (0..n).map(|_| *s.pick(&[0, 1, 2, 3, 4, 5, 0x26, 0x1f, 0x0b, 0x80, 0xff, b'a', 0x11, 0x21, 0x27])).collect(),
        };
        return (frame(b1, &body), F_RAND);
    }
    let mut m = model(s, ver);
    wire_login(s, &mut m);
    let form = s.below(3) as u8;
    let src = [F_VALID, F_WILD, F_MUT][kind];
    if kind == 1 || (kind == 2 && s.chance(1, 5)) {
        wild(s, &mut m, ver);
    }
    let (mut b1, mut e) = encode(&m, ver, form);
    if kind == 2 {
        let n = s.weighted(&[6, 2, 1]) + 1;
        for _ in 0..n {
            mutate(s, &mut b1, &mut e);
        }
    }
    if kind != 0 && s.chance(1, 60) {
        // redundant continuation bytes in the remaining length
        let w = s.range(1, 4) as usize;
        let mut f = vec![b1];
        f.extend(var_wide(e.body.len(), w));
        f.extend(&e.body);
        return (f, src);
    }
    (frame(b1, &e.body), src)
}

/// A valid frame and its packet, in any form MQTT allows.
pub fn valid_frame(s: &mut Src, ver: Ver) -> (M, Vec<u8>) {
    let mut m = model(s, ver);
    wire_login(s, &mut m);
    let form = s.below(3) as u8;
    let f = encode_frame(&m, ver, form);
    (m, f)
}
