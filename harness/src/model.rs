//! Reference model of MQTT 3.1.1 and MQTT 5 control packets, written from the OASIS specifications.
//! Shares no code with the crate under test.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ver {
    V4,
    V5,
}
pub use Ver::*;

pub const CONNECT: u8 = 1;
pub const CONNACK: u8 = 2;
pub const PUBLISH: u8 = 3;
pub const PUBACK: u8 = 4;
pub const PUBREC: u8 = 5;
pub const PUBREL: u8 = 6;
pub const PUBCOMP: u8 = 7;
pub const SUBSCRIBE: u8 = 8;
pub const SUBACK: u8 = 9;
pub const UNSUBSCRIBE: u8 = 10;
pub const UNSUBACK: u8 = 11;
pub const PINGREQ: u8 = 12;
pub const PINGRESP: u8 = 13;
pub const DISCONNECT: u8 = 14;

pub const TYPE_NAMES: [&str; 16] = [
    "type0", "connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback",
    "unsubscribe", "unsuback", "pingreq", "pingresp", "disconnect", "type15",
];

pub const MAX_VAR: usize = 268_435_455;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum PVal {
    U8(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Str(String),
    Bin(Vec<u8>),
    Pair(String, String),
}

pub type Props = Vec<(u8, PVal)>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Will {
    pub topic: String,
    pub msg: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum M {
    Connect {
        level: u8,
        keep_alive: u16,
        client_id: String,
        clean: bool,
        will: Option<Will>,
        user: Option<String>,
        pass: Option<String>,
        props: Props,
    },
    ConnAck { sp: bool, code: u8, props: Props },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, pkid: u16, props: Props, payload: Vec<u8> },
    /// PUBACK, PUBREC, PUBREL, PUBCOMP
    Ack { ty: u8, pkid: u16, reason: u8, props: Props },
    Subscribe { pkid: u16, props: Props, filters: Vec<(String, u8)> },
    SubAck { pkid: u16, props: Props, codes: Vec<u8> },
    Unsubscribe { pkid: u16, props: Props, filters: Vec<String> },
    UnsubAck { pkid: u16, props: Props, codes: Vec<u8> },
    PingReq,
    PingResp,
    Disconnect { reason: u8, props: Props },
}

impl M {
    pub fn ty(&self) -> u8 {
        match self {
            M::Connect { .. } => CONNECT,
            M::ConnAck { .. } => CONNACK,
            M::Publish { .. } => PUBLISH,
            M::Ack { ty, .. } => *ty,
            M::Subscribe { .. } => SUBSCRIBE,
            M::SubAck { .. } => SUBACK,
            M::Unsubscribe { .. } => UNSUBSCRIBE,
            M::UnsubAck { .. } => UNSUBACK,
            M::PingReq => PINGREQ,
            M::PingResp => PINGRESP,
            M::Disconnect { .. } => DISCONNECT,
        }
    }

    pub fn props(&self) -> Option<&Props> {
        match self {
            M::Connect { props, .. }
            | M::ConnAck { props, .. }
            | M::Publish { props, .. }
            | M::Ack { props, .. }
            | M::Subscribe { props, .. }
            | M::SubAck { props, .. }
            | M::Unsubscribe { props, .. }
            | M::UnsubAck { props, .. }
            | M::Disconnect { props, .. } => Some(props),
            M::PingReq | M::PingResp => None,
        }
    }

    pub fn props_mut(&mut self) -> Option<&mut Props> {
        match self {
            M::Connect { props, .. }
            | M::ConnAck { props, .. }
            | M::Publish { props, .. }
            | M::Ack { props, .. }
            | M::Subscribe { props, .. }
            | M::SubAck { props, .. }
            | M::Unsubscribe { props, .. }
            | M::UnsubAck { props, .. }
            | M::Disconnect { props, .. } => Some(props),
            M::PingReq | M::PingResp => None,
        }
    }

    /// Identify the forms that mean the same thing.
    pub fn canon(mut self, ver: Ver) -> M {
        if ver == V4 {
            if let Some(p) = self.props_mut() {
                p.clear();
            }
        }
        if let Some(p) = self.props_mut() {
            sort_props(p);
        }
        match &mut self {
            M::Connect { level, will, user, pass, props, .. } => {
                if user.as_deref() == Some("") {
                    *user = None;
                }
                if pass.as_deref() == Some("") {
                    *pass = None;
                }
                if *level == 4 {
                    props.clear();
                }
                if let Some(w) = will {
                    sort_props(&mut w.props);
                    if *level == 4 || ver == V4 {
                        w.props.clear();
                    }
                }
            }
            M::Publish { qos: 0, pkid, .. } => *pkid = 0,
            M::Ack { reason, .. } if ver == V4 => *reason = 0,
            M::Disconnect { reason, .. } if ver == V4 => *reason = 0,
            _ => {}
        }
        self
    }
}

fn sort_props(p: &mut Props) {
    p.sort_by_key(|x| x.0);
}

// ---------------------------------------------------------------- tables

/// Property type letter: b byte, h two byte, w four byte, v variable, s string, d binary, p pair
pub fn prop_kind(id: u8) -> Option<char> {
    Some(match id {
        1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => 'b',
        19 | 33 | 34 | 35 => 'h',
        2 | 17 | 24 | 39 => 'w',
        11 => 'v',
        3 | 8 | 18 | 21 | 26 | 28 | 31 => 's',
        9 | 22 => 'd',
        38 => 'p',
        _ => return None,
    })
}

pub const ALL_PROPS: [u8; 27] = [
    1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
];

/// `ty` 0 is the will
pub const WILL: u8 = 0;

pub fn allowed(ty: u8) -> &'static [u8] {
    match ty {
        WILL => &[24, 1, 2, 3, 8, 9, 38],
        CONNECT => &[17, 33, 39, 34, 25, 23, 38, 21, 22],
        CONNACK => &[17, 33, 36, 37, 39, 18, 34, 31, 38, 40, 41, 42, 19, 26, 28, 21, 22],
        PUBLISH => &[1, 2, 35, 8, 9, 38, 11, 3],
        PUBACK | PUBREC | PUBREL | PUBCOMP | SUBACK | UNSUBACK => &[31, 38],
        SUBSCRIBE => &[11, 38],
        UNSUBSCRIBE => &[38],
        DISCONNECT => &[17, 31, 38, 28],
        _ => &[],
    }
}

pub fn repeatable(ty: u8, id: u8) -> bool {
    id == 38 || (id == 11 && ty == PUBLISH)
}

/// Codes the specification lists for this packet. For CONNACK the return / reason code,
/// for acks the reason code, for SUBACK / UNSUBACK the per-filter code.
pub fn codes(ver: Ver, ty: u8) -> &'static [u8] {
    match (ver, ty) {
        (V4, CONNACK) => &[0, 1, 2, 3, 4, 5],
        (V4, SUBACK) => &[0, 1, 2, 0x80],
        (V5, CONNACK) => &[
            0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A,
            0x9B, 0x9C, 0x9D, 0x9F,
        ],
        (V5, PUBACK | PUBREC) => &[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        (V5, PUBREL | PUBCOMP) => &[0, 0x92],
        (V5, SUBACK) => &[0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2],
        (V5, UNSUBACK) => &[0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91],
        (V5, DISCONNECT) => &[
            0, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97,
            0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2,
        ],
        _ => &[0],
    }
}

// ---------------------------------------------------------------- encoder

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Len16,
    Text,
    Bin,
    PropLen,
    PropId,
    VarVal,
    Code,
    Opts,
    Flags,
    Level,
    Pkid,
    Num,
}

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub at: usize,
    pub len: usize,
    pub kind: K,
}

#[derive(Default, Clone)]
pub struct Enc {
    pub body: Vec<u8>,
    pub marks: Vec<Mark>,
}

pub fn var(mut n: usize) -> Vec<u8> {
    assert!(n <= MAX_VAR);
    let mut v = Vec::with_capacity(4);
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

/// Encode in exactly `width` bytes, padding with redundant continuation bytes.
pub fn var_wide(n: usize, width: usize) -> Vec<u8> {
    let mut v = var(n);
    while v.len() < width {
        let l = v.len();
        v[l - 1] |= 0x80;
        v.push(0);
    }
    v
}

impl Enc {
    fn mark(&mut self, len: usize, kind: K) {
        self.marks.push(Mark { at: self.body.len(), len, kind });
    }
    fn u8(&mut self, b: u8, k: K) {
        self.mark(1, k);
        self.body.push(b);
    }
    fn u16(&mut self, n: u16, k: K) {
        self.mark(2, k);
        self.body.extend_from_slice(&n.to_be_bytes());
    }
    fn u32(&mut self, n: u32) {
        self.mark(4, K::Num);
        self.body.extend_from_slice(&n.to_be_bytes());
    }
    fn bin(&mut self, b: &[u8], k: K) {
        assert!(b.len() <= 65535);
        self.u16(b.len() as u16, K::Len16);
        self.mark(b.len(), k);
        self.body.extend_from_slice(b);
    }
    fn text(&mut self, s: &str) {
        self.bin(s.as_bytes(), K::Text);
    }
    fn props(&mut self, p: &Props) {
        let mut e = Enc::default();
        for (id, v) in p {
            e.u8(*id, K::PropId);
            match v {
                PVal::U8(x) => e.u8(*x, K::Num),
                PVal::U16(x) => e.u16(*x, K::Num),
                PVal::U32(x) => e.u32(*x),
                PVal::Var(x) => {
                    let b = var(*x as usize);
                    e.mark(b.len(), K::VarVal);
                    e.body.extend_from_slice(&b);
                }
                PVal::Str(s) => e.text(s),
                PVal::Bin(b) => e.bin(b, K::Bin),
                PVal::Pair(a, b) => {
                    e.text(a);
                    e.text(b);
                }
            }
        }
        let l = var(e.body.len());
        self.mark(l.len(), K::PropLen);
        self.body.extend_from_slice(&l);
        let base = self.body.len();
        self.body.extend_from_slice(&e.body);
        self.marks.extend(e.marks.into_iter().map(|m| Mark { at: m.at + base, ..m }));
    }
}

/// `form` selects among the encodings MQTT 5 allows for acks and disconnect:
/// 0 the shortest, 1 with the reason code, 2 with reason code and property length.
pub fn encode(m: &M, ver: Ver, form: u8) -> (u8, Enc) {
    let mut e = Enc::default();
    let v5 = ver == V5;
    let b1 = match m {
        M::Connect { level, keep_alive, client_id, clean, will, user, pass, props } => {
            let with_props = v5 && *level == 5;
            e.text("MQTT");
            e.u8(*level, K::Level);
            let mut f = (*clean as u8) << 1;
            if let Some(w) = will {
                f |= 4 | (w.qos & 3) << 3 | (w.retain as u8) << 5;
            }
            if user.is_some() {
                f |= 0x80;
            }
            if pass.is_some() {
                f |= 0x40;
            }
            e.u8(f, K::Flags);
            e.u16(*keep_alive, K::Num);
            if with_props {
                e.props(props);
            }
            e.text(client_id);
            if let Some(w) = will {
                if with_props {
                    e.props(&w.props);
                }
                e.text(&w.topic);
                e.bin(&w.msg, K::Bin);
            }
            if let Some(u) = user {
                e.text(u);
            }
            if let Some(p) = pass {
                e.text(p);
            }
            0x10
        }
        M::ConnAck { sp, code, props } => {
            e.u8(*sp as u8, K::Flags);
            e.u8(*code, K::Code);
            if v5 {
                e.props(props);
            }
            0x20
        }
        M::Publish { dup, qos, retain, topic, pkid, props, payload } => {
            e.text(topic);
            if *qos != 0 {
                e.u16(*pkid, K::Pkid);
            }
            if v5 {
                e.props(props);
            }
            e.mark(payload.len(), K::Bin);
            e.body.extend_from_slice(payload);
            0x30 | (*dup as u8) << 3 | (qos & 3) << 1 | *retain as u8
        }
        M::Ack { ty, pkid, reason, props } => {
            e.u16(*pkid, K::Pkid);
            if v5 {
                let need = if !props.is_empty() { 2 } else { (*reason != 0) as u8 };
                let form = form.max(need);
                if form >= 1 {
                    e.u8(*reason, K::Code);
                }
                if form >= 2 {
                    e.props(props);
                }
            }
            ty << 4 | if *ty == PUBREL { 2 } else { 0 }
        }
        M::Subscribe { pkid, props, filters } => {
            e.u16(*pkid, K::Pkid);
            if v5 {
                e.props(props);
            }
            for (f, o) in filters {
                e.text(f);
                e.u8(*o, K::Opts);
            }
            0x82
        }
        M::SubAck { pkid, props, codes } => {
            e.u16(*pkid, K::Pkid);
            if v5 {
                e.props(props);
            }
            for c in codes {
                e.u8(*c, K::Code);
            }
            0x90
        }
        M::Unsubscribe { pkid, props, filters } => {
            e.u16(*pkid, K::Pkid);
            if v5 {
                e.props(props);
            }
            for f in filters {
                e.text(f);
            }
            0xA2
        }
        M::UnsubAck { pkid, props, codes } => {
            e.u16(*pkid, K::Pkid);
            if v5 {
                e.props(props);
                for c in codes {
                    e.u8(*c, K::Code);
                }
            }
            0xB0
        }
        M::PingReq => 0xC0,
        M::PingResp => 0xD0,
        M::Disconnect { reason, props } => {
            if v5 {
                let need = if !props.is_empty() { 2 } else { (*reason != 0) as u8 };
                let form = form.max(need);
                if form >= 1 {
                    e.u8(*reason, K::Code);
                }
                if form >= 2 {
                    e.props(props);
                }
            }
            0xE0
        }
    };
    (b1, e)
}

pub fn frame(b1: u8, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(body.len() + 5);
    v.push(b1);
    v.extend_from_slice(&var(body.len()));
    v.extend_from_slice(body);
    v
}

pub fn encode_frame(m: &M, ver: Ver, form: u8) -> Vec<u8> {
    let (b1, e) = encode(m, ver, form);
    frame(b1, &e.body)
}

// ---------------------------------------------------------------- framing

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Framing {
    /// exactly this many bytes are certainly still missing
    More(usize),
    TooLarge(usize),
    BadLength,
    /// header length, remaining length
    Frame(usize, usize),
}

pub fn framing(s: &[u8], max: usize) -> Framing {
    if s.len() < 2 {
        return Framing::More(2 - s.len());
    }
    let mut n = 0usize;
    for i in 0..4 {
        let Some(b) = s.get(1 + i) else { return Framing::More(1) };
        n += ((b & 0x7f) as usize) << (7 * i);
        if b & 0x80 == 0 {
            if n > max {
                return Framing::TooLarge(n);
            }
            let total = 2 + i + n;
            if s.len() < total {
                return Framing::More(total - s.len());
            }
            return Framing::Frame(2 + i, n);
        }
    }
    Framing::BadLength
}

// ---------------------------------------------------------------- decoder

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// valid: must be accepted with these fields
    Accept(M),
    /// breaks a rule this crate is not required to enforce; if accepted, the fields must be these
    /// (None: not comparable)
    Lenient(Option<M>, &'static str),
    /// malformed: must be rejected
    Reject(&'static str),
}

struct Rd<'a> {
    b: &'a [u8],
    pos: usize,
    soft: Option<&'static str>,
}

pub type D<T> = Result<T, &'static str>;

impl<'a> Rd<'a> {
    fn soft(&mut self, w: &'static str) {
        if self.soft.is_none() {
            self.soft = Some(w);
        }
    }
    fn left(&self) -> usize {
        self.b.len() - self.pos
    }
    fn take(&mut self, n: usize, why: &'static str) -> D<&'a [u8]> {
        if self.left() < n {
            return Err(why);
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn u8(&mut self) -> D<u8> {
        Ok(self.take(1, "truncated field")?[0])
    }
    fn u16(&mut self) -> D<u16> {
        let s = self.take(2, "truncated field")?;
        Ok(u16::from_be_bytes([s[0], s[1]]))
    }
    fn u32(&mut self) -> D<u32> {
        let s = self.take(4, "truncated field")?;
        Ok(u32::from_be_bytes([s[0], s[1], s[2], s[3]]))
    }
    fn bin(&mut self) -> D<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n, "string or binary runs past its container")?.to_vec())
    }
    fn text(&mut self) -> D<String> {
        let s = String::from_utf8(self.bin()?).map_err(|_| "string is not UTF-8")?;
        if s.contains('\0') {
            self.soft("NUL in string");
        }
        Ok(s)
    }
    fn var(&mut self) -> D<usize> {
        let mut n = 0usize;
        for i in 0..4 {
            let b = self.take(1, "truncated variable byte integer")?[0];
            n += ((b & 0x7f) as usize) << (7 * i);
            if b & 0x80 == 0 {
                if i > 0 && b == 0 {
                    self.soft("non-minimal variable byte integer");
                }
                return Ok(n);
            }
        }
        Err("over-long variable byte integer")
    }
    fn props(&mut self, ty: u8) -> D<Props> {
        let n = self.var()?;
        let section = self.take(n, "property section runs past the frame")?;
        let mut r = Rd { b: section, pos: 0, soft: None };
        let mut out: Props = Vec::new();
        while r.left() > 0 {
            let id = r.u8()?;
            if prop_kind(id).is_none() {
                return Err("unknown property");
            }
            if !allowed(ty).contains(&id) {
                return Err("property not allowed in this packet");
            }
            if !repeatable(ty, id) && out.iter().any(|p| p.0 == id) {
                r.soft("duplicate property");
            }
            let v = match prop_kind(id).unwrap() {
                'b' => {
                    let x = r.u8()?;
                    if x > 1 {
                        r.soft("byte property out of range");
                    }
                    PVal::U8(x)
                }
                'h' => {
                    let x = r.u16()?;
                    if x == 0 && (id == 33 || id == 35) {
                        r.soft("zero where MQTT forbids it");
                    }
                    PVal::U16(x)
                }
                'w' => {
                    let x = r.u32()?;
                    if x == 0 && id == 39 {
                        r.soft("zero where MQTT forbids it");
                    }
                    PVal::U32(x)
                }
                'v' => {
                    let x = r.var()?;
                    if x == 0 {
                        r.soft("subscription identifier 0");
                    }
                    PVal::Var(x as u32)
                }
                's' => PVal::Str(r.text()?),
                'd' => PVal::Bin(r.bin()?),
                _ => PVal::Pair(r.text()?, r.text()?),
            };
            out.push((id, v));
        }
        if let Some(w) = r.soft {
            self.soft(w);
        }
        Ok(out)
    }
}

/// A property that may occur once but occurs again (tolerated): any one of its values will do. Keep the one that
/// was taken.
pub fn resolve_props(want: &mut Props, got: &Props, ty: u8) {
    let ids: Vec<u8> = want.iter().map(|p| p.0).filter(|i| !repeatable(ty, *i)).collect();
    for id in ids {
        let n = want.iter().filter(|p| p.0 == id).count();
        if n < 2 {
            continue;
        }
        let taken: Vec<&(u8, PVal)> = got.iter().filter(|p| p.0 == id).collect();
        let keep = want
            .iter()
            .rposition(|p| p.0 == id && taken.len() == 1 && p == taken[0])
            .or_else(|| want.iter().rposition(|p| p.0 == id));
        let mut i = 0;
        want.retain(|p| {
            i += 1;
            p.0 != id || Some(i - 1) == keep
        });
    }
}

pub fn resolve(want: &mut M, got: &M) {
    if want.ty() != got.ty() {
        return;
    }
    let ty = want.ty();
    if let (M::Connect { will: Some(w), .. }, M::Connect { will: Some(g), .. }) = (&mut *want, got) {
        resolve_props(&mut w.props, &g.props, WILL);
    }
    if let (Some(w), Some(g)) = (want.props_mut(), got.props()) {
        resolve_props(w, g, ty);
    }
}

/// What MQTT makes of a property section of packet type `ty` at the front of `b`: the properties, the size of the
/// section, and whether a rule is broken that this crate need not enforce.
pub fn section(b: &[u8], ty: u8) -> D<(Props, usize, bool)> {
    let mut r = Rd { b, pos: 0, soft: None };
    let mut p = r.props(ty)?;
    sort_props(&mut p);
    Ok((p, r.pos, r.soft.is_some()))
}

/// What MQTT makes of the bytes as one complete frame (see `framing`).
pub fn decode(frame: &[u8], ver: Ver) -> Verdict {
    let h = match framing(frame, usize::MAX) {
        Framing::Frame(h, n) if h + n == frame.len() => h,
        _ => return Verdict::Reject("not one whole frame"),
    };
    let mut r = Rd { b: frame, pos: h, soft: None };
    if h > 2 && frame[h - 1] == 0 {
        r.soft("non-minimal remaining length");
    }
    match decode_body(frame[0], &mut r, ver) {
        Err(w) => Verdict::Reject(w),
        Ok(None) => Verdict::Lenient(None, r.soft.unwrap_or("not comparable")),
        Ok(Some(m)) => {
            if r.left() > 0 {
                r.soft("trailing bytes");
            }
            match r.soft {
                None => Verdict::Accept(m),
                Some(w) => Verdict::Lenient(Some(m), w),
            }
        }
    }
}

fn decode_body(b1: u8, r: &mut Rd, ver: Ver) -> D<Option<M>> {
    let v5 = ver == V5;
    let ty = b1 >> 4;
    let fl = b1 & 15;
    let n = r.left();
    if !(1..=14).contains(&ty) {
        return Err("unknown packet type");
    }
    match ty {
        PUBLISH => {}
        PUBREL | SUBSCRIBE | UNSUBSCRIBE => {
            if fl != 2 {
                r.soft("reserved header flags");
            }
        }
        DISCONNECT if v5 => {
            if fl != 0 {
                // the stream reader may answer an empty disconnect before it looks at the flags
                return Err("disconnect with non-zero flags");
            }
        }
        _ => {
            if fl != 0 {
                r.soft("reserved header flags");
            }
        }
    }
    let bodyless = ty == PINGREQ || ty == PINGRESP || ty == DISCONNECT;
    if n == 0 && !bodyless {
        return Err("body missing");
    }
    let m = match ty {
        CONNECT => {
            let name = r.text()?;
            let level = r.u8()?;
            if name != "MQTT" {
                return Err("protocol name");
            }
            if level != 4 && level != 5 {
                return Err("protocol level");
            }
            if level == 5 && !v5 {
                r.soft("MQTT 5 CONNECT in the 3.1.1 reader");
                return Ok(None);
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                r.soft("reserved connect flag");
            }
            let keep_alive = r.u16()?;
            let props = if v5 && level == 5 { r.props(CONNECT)? } else { vec![] };
            let client_id = r.text()?;
            let wq = f >> 3 & 3;
            let will = if f & 4 == 0 {
                if f & 0x38 != 0 {
                    return Err("will QoS or retain without a will");
                }
                None
            } else {
                let props = if v5 && level == 5 { r.props(WILL)? } else { vec![] };
                let topic = r.text()?;
                let msg = r.bin()?;
                if wq == 3 {
                    return Err("will QoS 3");
                }
                Some(Will { topic, msg, qos: wq, retain: f & 0x20 != 0, props })
            };
            let user = if f & 0x80 != 0 { Some(r.text()?) } else { None };
            let pass = if f & 0x40 != 0 {
                let p = r.bin()?;
                if user.is_none() && level == 4 {
                    r.soft("password without user name");
                }
                match String::from_utf8(p) {
                    Ok(s) => Some(s),
                    Err(_) => {
                        r.soft("password is not UTF-8");
                        return Ok(None);
                    }
                }
            } else {
                None
            };
            if let Some(w) = &will {
                if w.topic.is_empty() || w.topic.contains(['+', '#']) {
                    r.soft("will topic is not a topic name");
                }
            }
            if client_id.is_empty() && f & 2 == 0 && level == 4 {
                r.soft("empty client id without clean session");
            }
            M::Connect { level, keep_alive, client_id, clean: f & 2 != 0, will, user, pass, props }
        }
        CONNACK => {
            let f = r.u8()?;
            if f > 1 {
                r.soft("reserved connack flags");
            }
            let code = r.u8()?;
            if !codes(ver, CONNACK).contains(&code) {
                return Err("unknown return code");
            }
            let props = if v5 { r.props(CONNACK)? } else { vec![] };
            if f & 1 == 1 && code != 0 {
                r.soft("session present with an error");
            }
            M::ConnAck { sp: f & 1 == 1, code, props }
        }
        PUBLISH => {
            let qos = fl >> 1 & 3;
            if qos == 3 {
                return Err("QoS 3");
            }
            let topic = r.text()?;
            let pkid = if qos > 0 { r.u16()? } else { 0 };
            if qos > 0 && pkid == 0 {
                return Err("packet id 0");
            }
            let props = if v5 { r.props(PUBLISH)? } else { vec![] };
            let left = r.left();
            let payload = r.take(left, "")?.to_vec();
            if topic.contains(['+', '#']) || (topic.is_empty() && !props.iter().any(|p| p.0 == 35)) {
                r.soft("topic is not a topic name");
            }
            if fl & 8 != 0 && qos == 0 {
                r.soft("dup with QoS 0");
            }
            M::Publish { dup: fl & 8 != 0, qos, retain: fl & 1 != 0, topic, pkid, props, payload }
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.soft("packet id 0");
            }
            let mut reason = 0;
            let mut props = vec![];
            if v5 && r.left() > 0 {
                reason = r.u8()?;
                if !codes(ver, ty).contains(&reason) {
                    return Err("unknown reason code");
                }
                if r.left() > 0 {
                    props = r.props(ty)?;
                }
            }
            M::Ack { ty, pkid, reason, props }
        }
        SUBSCRIBE => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.soft("packet id 0");
            }
            let props = if v5 { r.props(SUBSCRIBE)? } else { vec![] };
            let mut filters = vec![];
            while r.left() > 0 {
                let f = r.text()?;
                let o = r.u8()?;
                if o & 3 == 3 {
                    return Err("QoS 3");
                }
                if v5 && o >> 4 & 3 == 3 {
                    return Err("retain handling 3");
                }
                let known = if v5 { 0x3f } else { 3 };
                if o & !known != 0 {
                    r.soft("reserved subscription options");
                }
                if !legal_filter(&f) {
                    r.soft("not a topic filter");
                }
                filters.push((f, o & known));
            }
            if filters.is_empty() {
                if v5 {
                    r.soft("empty subscription");
                } else {
                    return Err("empty subscription");
                }
            }
            M::Subscribe { pkid, props, filters }
        }
        SUBACK => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.soft("packet id 0");
            }
            let props = if v5 { r.props(SUBACK)? } else { vec![] };
            let mut cs = vec![];
            while r.left() > 0 {
                let c = r.u8()?;
                if !codes(ver, SUBACK).contains(&c) {
                    return Err("unknown reason code");
                }
                cs.push(c);
            }
            if cs.is_empty() {
                return Err("no return codes");
            }
            M::SubAck { pkid, props, codes: cs }
        }
        UNSUBSCRIBE => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.soft("packet id 0");
            }
            let props = if v5 { r.props(UNSUBSCRIBE)? } else { vec![] };
            let mut filters = vec![];
            while r.left() > 0 {
                let f = r.text()?;
                if !legal_filter(&f) {
                    r.soft("not a topic filter");
                }
                filters.push(f);
            }
            if filters.is_empty() {
                r.soft("empty unsubscription");
            }
            M::Unsubscribe { pkid, props, filters }
        }
        UNSUBACK => {
            if !v5 && n != 2 {
                return Err("unsuback of the wrong size");
            }
            let pkid = r.u16()?;
            if pkid == 0 {
                r.soft("packet id 0");
            }
            let props = if v5 { r.props(UNSUBACK)? } else { vec![] };
            let mut cs = vec![];
            if v5 {
                while r.left() > 0 {
                    let c = r.u8()?;
                    if !codes(ver, UNSUBACK).contains(&c) {
                        return Err("unknown reason code");
                    }
                    cs.push(c);
                }
                if cs.is_empty() {
                    return Err("no return codes");
                }
            }
            M::UnsubAck { pkid, props, codes: cs }
        }
        PINGREQ => M::PingReq,
        PINGRESP => M::PingResp,
        _ => {
            let mut reason = 0;
            let mut props = vec![];
            if v5 && n > 0 {
                reason = r.u8()?;
                if reason == 0x8C {
                    r.soft("reason code 0x8C in DISCONNECT");
                    return Ok(None);
                }
                if !codes(ver, DISCONNECT).contains(&reason) {
                    return Err("unknown reason code");
                }
                if r.left() > 0 {
                    props = r.props(DISCONNECT)?;
                }
            }
            M::Disconnect { reason, props }
        }
    };
    Ok(Some(m))
}

// ---------------------------------------------------------------- topics

/// MQTT rules for topic filters, level by level.
pub fn legal_filter(f: &str) -> bool {
    if f.is_empty() {
        return false;
    }
    let levels: Vec<&str> = f.split('/').collect();
    levels.iter().enumerate().all(|(i, l)| match *l {
        "#" => i + 1 == levels.len(),
        "+" => true,
        l => !l.contains(['+', '#']),
    })
}

/// Does the filter match the topic name, by the levels alone?
pub fn level_match(t: &[&str], f: &[&str]) -> bool {
    let (mut t, mut f) = (t, f);
    loop {
        match (t, f) {
            (_, ["#"]) => return true,
            ([], []) => return true,
            ([_, tt @ ..], ["+", ff @ ..]) => (t, f) = (tt, ff),
            ([a, tt @ ..], [b, ff @ ..]) if a == b => (t, f) = (tt, ff),
            _ => return false,
        }
    }
}

/// What `matches` has to answer for a topic name and a legal filter.
pub fn ref_matches(topic: &str, filter: &str) -> bool {
    let t: Vec<&str> = topic.split('/').collect();
    let f: Vec<&str> = filter.split('/').collect();
    !topic.starts_with('$') && level_match(&t, &f)
}
