//! C07, C08, C09

use super::roundtrip::{blob, huge_of, large_frame, HUGE};
use super::*;
use crate::gen;
use bytes::Bytes;
use mqttbytes::{check, has_wildcards, matches, v4, v5, valid_filter, valid_topic};

const HEAD: u64 = 7 * 7 * 7 * 7 * 7 * 7;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "arbitrary and structured bytes into check, both stream readers with random limits, every per-packet reader (also of another type) and every property extractor; arbitrary strings into the topic functions; all frames with bodies of one byte and all streams of up to two bytes enumerated; on a thread with a stack of 2 MiB, frames of large packets damaged anywhere; topics and filters of up to 1.5 million levels and frames and streams of up to 300,000 items; non-trivial: at least 3 bytes, or a string pair with a wildcard, '$' or non-ASCII text; distinct by input",
            parts: vec![
                Part::random("frames", 6_000_000, 60_000_000, c07_frames),
                Part::random("raw bytes", 4_500_000, 45_000_000, c07_raw),
                Part::random("extractors", 6_000_000, 60_000_000, c07_extract),
                Part::random("strings", 9_000_000, 90_000_000, c07_strings),
                Part::all("short streams", 1 + 256 + 65536 + 65536, c07_short),
                Part::random("long inputs", 480, 9_600, c07_long),
                Part::random("large frames", 4_000, 80_000, c07_large),
            ],
        },
        Prop {
            id: "C08",
            rule: "prefixes of frames of any quality, with or without later bytes, against limits around the remaining length; all 6-byte streams over 7 byte values enumerated with every prefix; frames of up to 268435455 bytes with limits at and around every power of two; non-trivial: an error that leaves the stream, or a frame followed by other bytes; distinct by stream and limit",
            parts: vec![
                Part::random("streams", 12_000_000, 120_000_000, c08),
                Part::all("short streams", HEAD, c08_short),
                Part::random("large frames", 3_000, 60_000, c08_large),
                Part::all("huge frames", HUGE * 2, |s, c| {
                    let i = s.below(HUGE * 2);
                    let ver = if i < HUGE { V4 } else { V5 };
                    huge_of(&mut Src::replay(&[i % HUGE]), c, ver, |m, c| {
                        let f = encode_frame(&m, ver, 0);
                        let Framing::Frame(_, n) = framing(&f, usize::MAX) else { panic!() };
                        for max in [usize::MAX, n, n - 1, n >> 1, n & 0xff_ffff, 1 << 24, 0] {
                            c08_of(&f, max, 0, ver, c)?;
                        }
                        for cut in [1, 2, n >> 1, n - 1] {
                            c08_of(&f[..f.len() - cut], n, 64, ver, c)?;
                        }
                        Ok(())
                    })
                }).serial(),
            ],
        },
        Prop {
            id: "C09",
            rule: "histories: 1-3 connections, v4 and v5, of 1-8 (rarely 120) frames of any quality each cut into random chunks, read in turns, the readers polled at random points and drained at the end, against the list of results of each frame alone; frames of up to 300,000 bytes that arrive byte by byte with a read after each, polls of up to 300,000 on an incomplete frame, connections of up to 300,000 frames, large and small frames in turns; non-trivial: a chunk border inside a frame or more than one frame per chunk; distinct by history",
            parts: vec![
                Part::random("histories", 3_750_000, 37_500_000, c09),
                Part::random("slow connections", 48, 960, c09_slow),
                Part::random("many frames", 48, 960, c09_many),
                Part::random("large frames", 1_200, 24_000, c09_large),
            ],
        },
    ]
}

// ---------------------------------------------------------------- C07

fn limit(s: &mut Src) -> usize {
    match s.below(6) {
        0 => usize::MAX,
        5 => (1u64 << s.range(8, 63)).wrapping_add(s.below(300)).wrapping_sub(s.below(300)) as usize,
        1 => s.below(300) as usize,
        2 => 268_435_455,
        3 => 0,
        _ => s.below(20_000) as usize,
    }
}

/// Everything public that takes these bytes.
fn feed(f: &[u8], max: usize) -> R {
    let h = call("check", || check(f.iter(), max))?;
    for ver in [V4, V5] {
        let mut st = BytesMut::from(f);
        // poll as a network loop does, until the reader stops taking bytes
        for _ in 0..64 {
            let n = st.len();
            let r = read(&mut st, max, ver)?;
            if st.len() == n || r.is_err() && st.is_empty() {
                break;
            }
            if let Ok(p) = r {
                let _ = call("debug", || format!("{p:?}"))?;
            }
        }
    }
    if let Ok(h) = h {
        let _ = call("packet_type", || h.packet_type())?;
        let n = call("frame_length", || h.frame_length())?;
        if n <= f.len() {
            readers(h, &f[..n])?;
        }
    }
    Ok(())
}

fn readers(h: mqttbytes::FixedHeader, f: &[u8]) -> R {
    let b = Bytes::copy_from_slice(f);
    macro_rules! go {
        ($($m:ident :: $t:ident),*) => { $(
            let _ = call(concat!(stringify!($m), "::", stringify!($t), "::read"), || $m::$t::read(h, b.clone()))?;
        )* };
    }
    go!(
        v4::Connect, v4::ConnAck, v4::Publish, v4::PubAck, v4::PubRec, v4::PubRel, v4::PubComp, v4::Subscribe,
        v4::SubAck, v4::Unsubscribe, v4::UnsubAck, v5::Connect, v5::ConnAck, v5::Publish, v5::PubAck, v5::PubRec,
        v5::PubRel, v5::PubComp, v5::Subscribe, v5::SubAck, v5::Unsubscribe, v5::UnsubAck, v5::Disconnect
    );
    Ok(())
}

fn c07_frames(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let (mut f, from) = gen::any_frame(s, ver);
    c.label(from);
    match s.below(6) {
        0 => {
            let n = s.below(f.len() as u64 + 1) as usize;
            f.truncate(n);
        }
        1 => {
            let (g, _) = gen::any_frame(s, ver);
            f.extend(g);
        }
        2 => {
            if f.len() > 1 {
                f[1] = s.byte();
            }
        }
        _ => {}
    }
    let max = limit(s);
    c.subject(&f);
    c.nontrivial = f.len() > 2;
    c.note(|| format!("{} limit {max}", hex(&f)));
    feed(&f, max)
}

fn c07_raw(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.below(48) as usize;
    let mut f = s.bytes(n);
    if f.len() > 1 && s.flag() {
        f[1] = (f.len() - 2) as u8;
    }
    let max = limit(s);
    c.subject(&f);
    c.nontrivial = f.len() > 2;
    c.note(|| format!("{} limit {max}", hex(&f)));
    feed(&f, max)
}

fn c07_short(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(1 + 256 + 65536 + 65536);
    let f = if i == 0 {
        vec![]
    } else if i <= 256 {
        vec![(i - 1) as u8]
    } else if i <= 256 + 65536 {
        let j = i - 257;
        vec![j as u8, (j >> 8) as u8]
    } else {
        let j = i - 257 - 65536;
        vec![j as u8, 1, (j >> 8) as u8]
    };
    c.subject(&f);
    c.nontrivial = f.len() > 2;
    c.note(|| hex(&f));
    feed(&f, usize::MAX)
}

fn c07_extract(s: &mut Src, c: &mut Ctx) -> R {
    let b: Vec<u8> = if s.flag() {
        // the property section of some packet, perhaps edited
        let mut m = gen::model(s, V5);
        if s.flag() {
            gen::wild(s, &mut m, V5);
        }
        let (mut b1, mut e) = encode(&m, V5, 2);
        for _ in 0..s.below(3) {
            gen::mutate(s, &mut b1, &mut e);
        }
        match e.marks.iter().find(|m| m.kind == K::PropLen) {
            Some(m) if m.at <= e.body.len() => e.body[m.at..].to_vec(),
            _ => e.body,
        }
    } else {
        let n = s.below(40) as usize;
        let mut v = s.bytes(n);
        if v.len() > 1 && s.flag() {
            v[0] = (v.len() - 1) as u8;
            v[1] = *s.pick(&ALL_PROPS);
        }
        v
    };
    c.subject(&b);
    c.nontrivial = b.len() > 2;
    c.note(|| hex(&b));
    macro_rules! go {
        ($($t:ident),*) => { $(
            let mut x = Bytes::copy_from_slice(&b);
            let _ = call(concat!("v5::", stringify!($t), "::extract"), || v5::$t::extract(&mut x))?;
            ensure!(x.len() <= b.len(), "extract grew its input");
        )* };
    }
    go!(
        ConnAckProperties, SubscribeProperties, SubAckProperties, UnsubAckProperties, PubAckProperties,
        PubRecProperties, PubRelProperties, PubCompProperties, DisconnectProperties
    );
    Ok(())
}

fn wild_text(s: &mut Src) -> String {
    match s.below(3) {
        0 => {
            let n = s.below(8);
            (0..n)
                .map(|_| *s.pick(&['a', '/', '+', '#', '$', 'é', '€', '😀', '\0', '\u{7f}', 'b', '\u{feff}', '\u{d7ff}', '\u{10ffff}']))
                .collect()
        }
        1 => gen::filter(s),
        _ => {
            let n = s.below(6);
            (0..n).map(|_| char::from_u32(s.below(0x11_0000) as u32).unwrap_or('x')).collect()
        }
    }
}

fn c07_strings(s: &mut Src, c: &mut Ctx) -> R {
    let a = wild_text(s);
    let b = if s.chance(1, 4) { a.clone() } else { wild_text(s) };
    c.subject(a.as_bytes());
    c.subject(b.as_bytes());
    c.nontrivial = !a.is_ascii() || !b.is_ascii() || a.starts_with('$') || b.contains(['+', '#']);
    c.note(|| format!("{a:?} {b:?}"));
    call("matches", || matches(&a, &b))?;
    call("valid_filter", || valid_filter(&a))?;
    call("valid_topic", || valid_topic(&a))?;
    call("has_wildcards", || has_wildcards(&a))?;
    Ok(())
}

/// Inputs with very many items, on the stack a spawned thread has by default.
fn c07_long(s: &mut Src, c: &mut Ctx) -> R {
    let slot = MY_SLOT.with(|m| m.get());
    let r = std::thread::scope(|t| {
        let f = || {
            MY_SLOT.with(|m| m.set(slot));
            long_input(s, c)
        };
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(t, f).unwrap().join()
    });
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}

fn long_input(s: &mut Src, c: &mut Ctx) -> R {
    c.nontrivial = true;
    if s.flag() {
        let n = s.range(1, 3) as usize * if s.flag() { 500_000 } else { 7_000 };
        let level = *s.pick(&["a", "", "é", "ab"]);
        let topic = vec![level; n].join("/");
        let mut f: Vec<&str> = vec![level; n];
        let shape = s.below(8);
        match shape {
            0 => {}
            1 => f.fill("+"),
            2 => *f.last_mut().unwrap() = "#",
            3 => *f.last_mut().unwrap() = "z",
            4 => f.push("#"),
            5 => (0..n).step_by(2).for_each(|i| f[i] = "+"),
            6 => f.truncate(n - 1),
            _ => f = vec!["#"; n],
        }
        let filter = f.join("/");
        c.subject(&[0, shape as u8]);
        c.subject(&(n as u64).to_le_bytes());
        c.subject(level.as_bytes());
        c.note(|| format!("topic of {n} levels {level:?}, filter of shape {shape}"));
        call("matches", || matches(&topic, &filter))?;
        for w in [&topic, &filter] {
            call("valid_filter", || valid_filter(w))?;
            call("valid_topic", || valid_topic(w))?;
            call("has_wildcards", || has_wildcards(w))?;
        }
        return Ok(());
    }
    let n = s.range(1, 3) as usize * if s.flag() { 100_000 } else { 5_000 };
    let ver = if s.flag() { V5 } else { V4 };
    let kind = s.below(6);
    let item = |i: usize| if i % 3 == 0 { String::new() } else { format!("{}", i % 100) };
    let pairs = |n: usize| -> Props { (0..n).map(|i| (38, PVal::Pair(item(i), item(i + 1)))).collect() };
    let publish = |topic: String, props| M::Publish { dup: false, qos: 0, retain: false, topic, pkid: 0, props, payload: vec![1] };
    let (ver, m) = match kind {
        0 => {
            let codes = (0..n).map(|i| (i % 3) as u8).collect();
            (ver, M::SubAck { pkid: 1, props: vec![], codes })
        }
        1 => (ver, M::Subscribe { pkid: 1, props: vec![], filters: (0..n).map(|i| (format!("f{}", item(i)), (i % 3) as u8)).collect() }),
        2 => (ver, M::Unsubscribe { pkid: 1, props: vec![], filters: (0..n).map(|i| format!("f{}", item(i))).collect() }),
        3 => (V5, publish("t".into(), (0..n).map(|i| (11, PVal::Var(1 + i as u32))).collect())),
        4 => {
            let mut m = gen::model(s, V5);
            match m.props_mut() {
                Some(p) => *p = pairs(n),
                None => m = publish("t".into(), pairs(n)),
            }
            if let M::Connect { will: Some(w), .. } = &mut m {
                w.props = pairs(n);
            }
            (V5, m)
        }
        _ => {
            // very many small packets in one buffer
            let one = gen::valid_frame(s, ver).1;
            let one = if one.len() > 40 { vec![0xc0, 0] } else { one };
            c.subject(&one);
            c.subject(&(n as u64).to_le_bytes());
            c.note(|| format!("{} {n} times over the frame {}", vname(ver), hex(&one)));
            let mut st = BytesMut::from(&one.repeat(n)[..]);
            let mut got = 0;
            while read(&mut st, usize::MAX, ver)?.is_ok() {
                got += 1;
            }
            ensure!(got == n && st.is_empty(), "read {got} of {n} frames {}, {} bytes are left", hex(&one), st.len());
            return Ok(());
        }
    };
    c.subject(&[1, kind as u8, ver as u8, m.ty()]);
    c.subject(&(n as u64).to_le_bytes());
    c.note(|| format!("{} {} with {n} items of kind {kind}", vname(ver), TYPE_NAMES[m.ty() as usize]));
    let p = to_crate(&m, ver, false);
    let b = p.bytes()?;
    feed(&b, usize::MAX)?;
    let again = read_frame(&b, ver)?;
    let Ok(q) = again else { return fail(format!("the {} frame of {n} items is not read again", TYPE_NAMES[m.ty() as usize])) };
    call("eq", || q == p)?;
    call("clone", || drop(p.clone()))?;
    Ok(())
}

// ---------------------------------------------------------------- C08

fn c08(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let mut st: Vec<u8>;
    match s.weighted(&[8, 2, 2]) {
        0 => {
            st = gen::any_frame(s, ver).0;
            match s.below(3) {
                0 => {
                    // cut, often near the ends
                    let n = if s.flag() {
                        s.below(st.len() as u64 + 1) as usize
                    } else {
                        st.len() - (s.below(7) as usize).min(st.len())
                    };
                    st.truncate(n);
                }
                1 => {
                    let n = s.below(10) as usize;
                    let t = s.bytes(n);
                    st.extend(t);
                }
                _ => {
                    let g = gen::any_frame(s, ver).0;
                    st.extend(g);
                }
            }
        }
        1 => {
            // an announced length of any size
            st = vec![s.byte()];
            let n = gen::num_var(s) as usize;
            let w = s.range(1, 4) as usize;
            st.extend(var_wide(n, w));
            let k = s.below(40) as usize;
            let t = s.bytes(k);
            st.extend(t);
            if s.chance(1, 4) {
                let n = s.below(7) as usize;
                st.truncate(n);
            }
        }
        _ => {
            let n = s.below(12) as usize;
            st = (0..n).map(|_| *s.pick(&[0x80, 0xff, 0, 1, 2, 0x7f, 0x10, 0x30])).collect();
        }
    }
    let rem = match framing(&st, usize::MAX) {
        Framing::Frame(_, n) => Some(n),
        _ => match framing(&st, 0) {
            Framing::TooLarge(n) => Some(n),
            _ => None,
        },
    };
    let max = match (rem, s.below(8)) {
        (Some(n), 6) => {
            let m = s.near_bit(63) as usize;
            if s.flag() { m } else { n + (m & !0x3ff) }
        }
        (_, 7) => limit(s),
        (Some(n), 0) => n,
        (Some(n), 1) => n + 1,
        (Some(n), 2) => n.saturating_sub(1),
        (_, 3) => s.below(400) as usize,
        (_, 4) => 0,
        _ => usize::MAX,
    };
    let spare = s.below(3) as usize * 64;
    c08_of(&st, max, spare, ver, c)
}

fn c07_large(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let mut f = large_frame(s, ver);
    if s.chance(1, 6) {
        let n = s.below(f.len() as u64 + 1) as usize;
        f.truncate(n);
    }
    let max = limit(s);
    c.subject(&f);
    c.nontrivial = f.len() > 2;
    c.note(|| format!("{} limit {max}", hex(&f)));
    feed(&f, max)
}

/// Large frames, whole or cut, against limits of every size below and above theirs.
fn c08_large(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let mut st = if s.flag() {
        large_frame(s, ver)
    } else {
        let n = match s.below(3) {
            0 => s.range(1_000_000, 9_000_000) as usize,
            1 => (1 << s.range(14, 23)) + s.below(9) as usize - 4,
            _ => s.range(10_000, 2_000_000) as usize,
        };
        let topic = vec![0, 1, b't'];
        let mut b = if ver == V5 { [&topic[..], &[0]].concat() } else { topic };
        b.extend(blob(n));
        frame(0x30, &b)
    };
    let Framing::Frame(_, n) = framing(&st, usize::MAX) else { return Ok(()) };
    match s.below(4) {
        0 => {
            let k = if s.flag() { s.range(1, 8).min(n as u64) } else { s.below(n as u64 + 1) } as usize;
            st.truncate(st.len() - k);
        }
        1 => {
            let g = gen::any_frame(s, ver).0;
            st.extend(g);
        }
        _ => {}
    }
    let max = match s.below(8) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => n + 1,
        3 => n & 0xffff,
        4 => n >> s.range(1, 12),
        5 => n - (1usize << s.below(23)).min(n),
        6 => limit(s),
        _ => usize::MAX,
    };
    c08_of(&st, max, s.below(3) as usize * 64, ver, c)
}

fn c08_short(s: &mut Src, c: &mut Ctx) -> R {
    let mut i = s.below(HEAD);
    let al = [0x00, 0x01, 0x02, 0x80, 0x81, 0xff, 0x7f];
    let first = [0xc0, 0xd0, 0xe0, 0x30, 0x40, 0x00, 0xff];
    let mut st = vec![];
    for k in 0..6 {
        let a = (i % 7) as usize;
        i /= 7;
        st.push(if k == 0 { first[a] } else { al[a] });
    }
    for n in 0..=st.len() {
        for ver in [V4, V5] {
            for max in [0, 1, 2, 3, 127, 128, usize::MAX] {
                c08_of(&st[..n], max, 0, ver, c)?;
            }
        }
    }
    Ok(())
}

fn c08_of(st: &[u8], max: usize, spare: usize, ver: Ver, c: &mut Ctx) -> R {
    let want = framing(st, max);
    c.subject(st);
    c.subject(&(max as u64).to_le_bytes());
    c.note(|| format!("{} stream {} limit {max} -> {want:?}", vname(ver), hex(st)));
    let ck = call("check", || check(st.iter(), max))?;
    let mut b = BytesMut::with_capacity(st.len() + spare);
    b.extend_from_slice(st);
    let r = read(&mut b, max, ver)?;
    let show = || format!("{} stream {} ({} bytes) with limit {max}", vname(ver), hex(st), st.len());
    let err = match want {
        Framing::More(n) => Some(Error::InsufficientBytes(n)),
        Framing::TooLarge(n) => Some(Error::PayloadSizeLimitExceeded(n)),
        Framing::BadLength => Some(Error::MalformedRemainingLength),
        Framing::Frame(..) => None,
    };
    match (err, want) {
        (Some(e), _) => {
            c.nontrivial = true;
            c.label(match want {
                Framing::More(_) => "needs more",
                Framing::TooLarge(_) => "too large",
                _ => "bad length",
            });
            ensure!(ck == Err(e), "{}: check says {ck:?}, expected {e:?}", show());
            match r {
                Err(x) if x == e => {}
                r => return fail(format!("{}: read says {:?}, expected {e:?}", show(), r.map(|p| p.model()))),
            }
            ensure!(b[..] == *st, "{}: the error changed the stream to {}", show(), hex(&b));
        }
        (None, Framing::Frame(h, n)) => {
            c.label("one frame");
            let total = h + n;
            c.nontrivial |= st.len() > total;
            match ck {
                Ok(hd) => ensure!(hd.frame_length() == total, "{}: frame_length {} instead of {total}", show(), hd.frame_length()),
                Err(e) => return fail(format!("{}: check refuses a complete frame: {e:?}", show())),
            }
            if let Err(e) = &r {
                ensure!(!more(e), "{}: asks for more bytes ({e:?}) though the frame is complete", show());
            }
            ensure!(b[..] == st[total..], "{}: read leaves {}, expected {}", show(), hex(&b), hex(&st[total..]));
            let alone = read_frame(&st[..total], ver)?;
            ensure!(alone == r, "{}: reads as {r:?}, the frame alone as {alone:?}", show());
        }
        _ => unreachable!(),
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

/// One connection: what is sent on it, what its frames read as one by one, and how far it has come.
struct Conn {
    ver: Ver,
    wire: Vec<u8>,
    ends: Vec<usize>,
    want: Vec<Result<crate::adapt::P, Error>>,
    max: usize,
    st: BytesMut,
    sent: usize,
    got: usize,
    mode: u64,
}

fn conn(s: &mut Src, frames: u64) -> Result<Conn, Fail> {
    let ver = if s.flag() { V5 } else { V4 };
    let (mut wire, mut ends, mut want) = (vec![], vec![], vec![]);
    for _ in 0..frames {
        let f = if s.flag() { gen::valid_frame(s, ver).1 } else { gen::any_frame(s, ver).0 };
        let r = read_frame(&f, ver)?;
        if let Err(e) = &r {
            ensure!(!more(e), "{} reader asks for more bytes ({e:?}) on the complete frame {}", vname(ver), hex(&f));
        }
        wire.extend(&f);
        ends.push(wire.len());
        want.push(r);
    }
    let max = if s.flag() { usize::MAX } else { wire.len() };
    let st = match s.below(3) {
        0 => BytesMut::new(),
        1 => BytesMut::with_capacity(s.below(256) as usize),
        _ => {
            // a buffer with used-up bytes before its start
            let mut b = BytesMut::with_capacity(s.below(256) as usize);
            let n = s.range(1, 64) as usize;
            b.extend_from_slice(&vec![s.byte(); n]);
            let _ = b.split_to(n);
            b
        }
    };
    let mode = s.below(3);
    Ok(Conn { ver, wire, ends, want, max, st, sent: 0, got: 0, mode })
}

impl Conn {
    fn done(&self) -> bool {
        self.sent == self.wire.len()
    }

    /// Some more bytes arrive and the reader is polled.
    fn step(&mut self, s: &mut Src, c: &mut Ctx) -> R {
        let left = self.wire.len() - self.sent;
        let k = match self.mode {
            0 => s.range(1, left as u64) as usize,
            1 => s.range(1, 4.min(left as u64)) as usize,
            _ => {
                // up to, or one byte around, the next frame border
                let e = *self.ends.iter().find(|e| **e > self.sent).unwrap();
                let d = s.below(3) as usize;
                (e - self.sent + d).saturating_sub(1).clamp(1, left)
            }
        };
        let k = if s.rec.len() > 3000 { left } else { k };
        self.arrive(k, s, c)
    }

    /// So many more bytes arrive and the reader is polled.
    fn arrive(&mut self, k: usize, s: &mut Src, c: &mut Ctx) -> R {
        self.st.extend_from_slice(&self.wire[self.sent..self.sent + k]);
        self.sent += k;
        if s.chance(1, 16) {
            // the bytes move to another buffer
            self.st = BytesMut::from(&self.st[..]);
        }
        c.nontrivial |= !self.ends.contains(&self.sent);
        let polls = if self.done() { self.want.len() + 2 } else { s.below(4) as usize };
        for _ in 0..polls {
            let (got, ver) = (self.got, self.ver);
            let ready = got < self.want.len() && self.ends[got] <= self.sent;
            let before = self.st.len();
            let r = read(&mut self.st, self.max, ver)?;
            if ready {
                ensure!(
                    r == self.want[got],
                    "{} frame {got} of {} (sent {} bytes of it): {r:?}, alone {:?}",
                    vname(ver), hex(&self.wire), self.sent, self.want[got]
                );
                self.got += 1;
                let at = self.sent - self.st.len();
                ensure!(
                    at == self.ends[got],
                    "after frame {got} of {} the stream stands at {at}, not {}", hex(&self.wire), self.ends[got]
                );
                c.label("frame delivered");
            } else {
                match r {
                    Err(e) if more(&e) => {}
                    r => {
                        return fail(format!(
                            "{} of {}: frame {got} is not complete, but read says {r:?}", vname(ver), hex(&self.wire)
                        ))
                    }
                }
                ensure!(self.st.len() == before, "a request for more bytes consumed some");
                c.label("asked for more");
                if !self.done() {
                    break;
                }
            }
        }
        if self.done() {
            ensure!(
                self.got == self.want.len() && self.st.is_empty(),
                "{} of {} frames delivered, {} bytes left", self.got, self.want.len(), self.st.len()
            );
        }
        Ok(())
    }
}

fn c09(s: &mut Src, c: &mut Ctx) -> R {
    let conns = s.weighted(&[5, 2, 1]) + 1;
    let mut v = vec![];
    for _ in 0..conns {
        let n = if conns == 1 && s.chance(1, 60) { s.range(9, 120) } else { s.range(1, if conns == 1 { 8 } else { 4 }) };
        let k = conn(s, n)?;
        c.subject(&k.wire);
        v.push(k);
    }
    c.note(|| {
        v.iter().map(|k| format!("{} wire {} frames end at {:?}", vname(k.ver), hex(&k.wire), k.ends)).collect::<Vec<_>>().join("; ")
    });
    if conns > 1 {
        c.label("several connections");
    }
    while !v.is_empty() {
        let i = s.below(v.len() as u64) as usize;
        v[i].step(s, c)?;
        if v[i].done() {
            v.remove(i);
        }
    }
    Ok(())
}

/// A long frame that comes in very small pieces, or stalls for very many polls.
fn c09_slow(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let size = *s.pick(&[300usize, 70_000, 20_000, 140_000, 300_000]);
    let m = match s.below(4) {
        0 => M::Publish { dup: false, qos: 1, retain: true, topic: "t".into(), pkid: 9, props: vec![], payload: vec![7; size] },
        1 => M::SubAck { pkid: 9, props: vec![], codes: vec![1; size] },
        2 => M::Unsubscribe { pkid: 9, props: vec![], filters: vec!["a/b".into(); size / 5] },
        _ => M::Subscribe { pkid: 9, props: vec![], filters: vec![("a/b".into(), 2); size / 6] },
    };
    let mut f = encode_frame(&m, ver, 0);
    if s.chance(1, 4) {
        // one the reader refuses
        f[0] |= 0x0f;
    }
    let want = read_frame(&f, ver)?;
    let (_, g) = gen::valid_frame(s, ver);
    let after = read_frame(&g, ver)?;
    let step = s.range(1, 3) as usize;
    let stall = if s.flag() { s.below(f.len() as u64) as usize / step } else { usize::MAX };
    let polls = *s.pick(&[70_000, 20_000, 140_000, 300_000]);
    c.nontrivial = true;
    c.subject(&f[..20.min(f.len())]);
    c.subject(&[size, step, stall, polls].map(|x| x as u8));
    c.subject(&g);
    c.note(|| {
        format!(
            "{} {} of {} bytes, {step} at a time, {polls} polls after piece {stall}, then {}",
            vname(ver), TYPE_NAMES[m.ty() as usize], f.len(), hex(&g)
        )
    });
    let max = if s.flag() { usize::MAX } else { f.len() };
    let mut st = BytesMut::new();
    let early = |st: &mut BytesMut, at: usize| match read(st, max, ver)? {
        Err(e) if more(&e) && st.len() == at => Ok(()),
        r => fail(clip(format!("after {at} of {} bytes: {r:?}, {} bytes in the stream", f.len(), st.len()))),
    };
    let n = f.len().div_ceil(step);
    for (i, piece) in f.chunks(step).enumerate() {
        st.extend_from_slice(piece);
        if i + 1 == n {
            break;
        }
        early(&mut st, i * step + piece.len())?;
        if i == stall {
            for _ in 0..polls {
                early(&mut st, i * step + piece.len())?;
            }
        }
    }
    st.extend_from_slice(&g);
    for (i, (f, want)) in [(&f, want), (&g, after)].into_iter().enumerate() {
        let r = read(&mut st, max.max(g.len()), ver)?;
        ensure!(r == want, "{}", clip(format!("frame {i} {}: {r:?}, alone {want:?}", hex(f))));
    }
    ensure!(st.is_empty(), "{} bytes are left at the end", st.len());
    Ok(())
}

/// Large frames and small ones in turns, chunks that end in and around the header of the next frame.
fn c09_large(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let (mut wire, mut ends, mut want) = (vec![], vec![], vec![]);
    let mut left = 3;
    for _ in 0..s.range(2, 8) {
        let f = if left > 0 && s.flag() {
            left -= 1;
            if s.chance(1, 3) {
                let top = s.range(15, 22);
                let n = s.range(1 << 14, 1 << top) as usize;
                let m = M::Publish { dup: false, qos: 1, retain: false, topic: "t".into(), pkid: 3, props: vec![], payload: blob(n) };
                encode_frame(&m, ver, 0)
            } else {
                large_frame(s, ver)
            }
        } else {
            gen::valid_frame(s, ver).1
        };
        let r = read_frame(&f, ver)?;
        if let Err(e) = &r {
            ensure!(!more(e), "{} reader asks for more bytes ({e:?}) on the complete frame {}", vname(ver), hex(&f));
        }
        wire.extend(&f);
        ends.push(wire.len());
        want.push(r);
    }
    c.subject(&wire);
    c.note(|| format!("{} wire {} frames end at {ends:?}", vname(ver), hex(&wire)));
    let st = if s.flag() { BytesMut::new() } else { BytesMut::with_capacity(s.below(wire.len() as u64 * 2) as usize) };
    let max = if s.flag() { usize::MAX } else { wire.len() };
    // up to 6 chunks between one frame border and the next
    let mut cuts: Vec<usize> = vec![];
    let mut at = 0;
    for e in &ends {
        for _ in 0..s.below(4) {
            let d = if s.flag() { s.below(8) as usize } else { s.below((e - at) as u64 + 1) as usize };
            cuts.push(if s.flag() { at + d } else { e - d.min(*e) });
        }
        at = *e;
    }
    cuts.push(wire.len());
    cuts.iter_mut().for_each(|x| *x = (*x).min(wire.len()));
    cuts.sort();
    cuts.dedup();
    let mut k = Conn { ver, wire, ends, want, max, st, sent: 0, got: 0, mode: 0 };
    for e in cuts {
        if e > k.sent {
            let n = e - k.sent;
            k.arrive(n, s, c)?;
        }
    }
    Ok(())
}

/// A long connection: very many frames, arriving in chunks that end anywhere.
fn c09_many(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let kinds: Vec<Vec<u8>> = (0..s.range(1, 6))
        .map(|_| if s.chance(2, 3) { gen::valid_frame(s, ver).1 } else { gen::any_frame(s, ver).0 })
        .map(|f| if f.len() > 60 { vec![0xd0, 0] } else { f })
        .collect();
    let mut want = vec![];
    for f in &kinds {
        want.push(read_frame(f, ver)?);
        c.subject(f);
    }
    let n = *s.pick(&[20_000usize, 70_000, 140_000, 300_000]);
    let chunk = s.range(1, 64) as usize;
    c.nontrivial = true;
    c.subject(&(n as u64).to_le_bytes());
    c.subject(&[chunk as u8]);
    c.note(|| {
        let k: Vec<String> = kinds.iter().map(|f| hex(f)).collect();
        format!("{} {n} frames in chunks of {chunk}: {} in turns", vname(ver), k.join(" "))
    });
    let wire: Vec<u8> = (0..n).flat_map(|i| kinds[i % kinds.len()].iter().copied()).collect();
    let mut st = BytesMut::new();
    let mut got = 0;
    for (k, piece) in wire.chunks(chunk).enumerate() {
        st.extend_from_slice(piece);
        loop {
            let r = read(&mut st, usize::MAX, ver)?;
            if let Err(e) = &r {
                if more(e) {
                    break;
                }
            }
            ensure!(got < n, "more frames than were sent: {r:?}");
            let w = &want[got % kinds.len()];
            ensure!(r == *w, "frame {got}, in piece {k}: {r:?}, alone {w:?}");
            got += 1;
        }
    }
    ensure!(got == n && st.is_empty(), "{got} of {n} frames came out, {} bytes are left", st.len());
    Ok(())
}
