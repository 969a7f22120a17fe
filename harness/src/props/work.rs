//! C26

use super::*;
use crate::alloc::total;
use mqttbytes::{has_wildcards, matches, v4, v5, valid_filter, valid_topic, QoS};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "one shape of input (a list, properties, payload, text, topic levels, a stream of frames, a frame arriving in pieces, packets written into one buffer, a packet built, cloned, compared, printed) built with n items and with 32n items, n from 300 to 1000; the larger one may allocate at most 4 times as much per item (plus 64 KiB), counted by the allocator, and take at most 8 times as much CPU time per item (plus 50 ms), the smallest of several measurements, exceeded in five rounds in a row (one when it is exceeded twentyfold); non-trivial: the input has items that differ; distinct by shape, version, item style and n",
        parts: vec![
            Part::random("decoding", 640, 9_600, |s, c| scale(s, c, DECODING)),
            Part::random("encoding", 640, 9_600, |s, c| scale(s, c, ENCODING)),
            Part::random("streams", 320, 4_800, |s, c| scale(s, c, STREAMS)),
            Part::random("topics", 640, 9_600, |s, c| scale(s, c, TOPICS)),
            Part::random("values", 480, 7_200, |s, c| scale(s, c, VALUES)),
            Part::all("every list and property section", EVERY.len() as u64 * 2 * 5 * 36, every),
            Part::all("every value", 3 * 11 * 5 * 36, every_value),
        ],
    }]
}

const TIMES: usize = 32;
const ALLOC_SLACK: usize = 4;
const CPU_SLACK: u64 = 8;
const CPU_CONST: u64 = 50_000_000;
const ROUNDS: usize = 5;

const DECODING: &[Shape] =
    &[Shape::List, Shape::Props, Shape::WillProps, Shape::SubIds, Shape::Payload, Shape::Text, Shape::Junk];
const ENCODING: &[Shape] = &[
    Shape::WriteList,
    Shape::WriteProps,
    Shape::WriteWillProps,
    Shape::WriteSubIds,
    Shape::WritePayload,
    Shape::WriteText,
    Shape::WriteMany,
    Shape::WriteRefused,
];
const STREAMS: &[Shape] = &[Shape::Frames, Shape::Drip, Shape::Poll, Shape::DropFrames];
const TOPICS: &[Shape] =
    &[Shape::MatchSame, Shape::MatchPlus, Shape::MatchHash, Shape::MatchMiss, Shape::MatchOdd, Shape::MatchOdd, Shape::Check];
const VALUES: &[Shape] = &[Shape::NewMany, Shape::AddMany, Shape::Clones, Shape::Equals, Shape::Prints];

const EVERY: &[Shape] = &[Shape::List, Shape::Props, Shape::WillProps, Shape::WriteList, Shape::WriteProps, Shape::WriteWillProps];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Shape {
    List,
    Props,
    WillProps,
    SubIds,
    Payload,
    Text,
    Junk,
    WriteList,
    WriteProps,
    WriteWillProps,
    WriteSubIds,
    WritePayload,
    WriteText,
    WriteMany,
    WriteRefused,
    Frames,
    Drip,
    Poll,
    DropFrames,
    MatchSame,
    MatchPlus,
    MatchHash,
    MatchMiss,
    MatchOdd,
    Check,
    NewMany,
    AddMany,
    Clones,
    Equals,
    Prints,
}

/// How the items of an input look.
#[derive(Clone, Copy, Debug)]
enum Style {
    Equal,
    Numbered,
    Growing,
    Empty,
    /// characters of two to four bytes
    Wide,
}

#[derive(Clone, Copy)]
struct Pick {
    shape: Shape,
    ver: Ver,
    style: Style,
    which: u64,
}

impl Pick {
    fn item(&self, i: usize) -> String {
        match self.style {
            Style::Equal => "same".into(),
            Style::Numbered => format!("{i:06}"),
            Style::Growing => "abcdefghijklmnopqrstuvwxyz"[..1 + i % 26].into(),
            Style::Empty => String::new(),
            Style::Wide => ["é", "日本", "😀", "į"][i % 4].repeat(1 + i % 3),
        }
    }
    fn pairs(&self, n: usize) -> Props {
        (0..n)
            .map(|i| {
                let (k, v) = match self.which % 3 {
                    0 => (self.item(i), "v".into()),
                    1 => ("k".into(), self.item(i)),
                    _ => (self.item(i), self.item(n - i)),
                };
                (38, PVal::Pair(k, v))
            })
            .collect()
    }
    fn publish(&self, topic: String, props: Props, payload: Vec<u8>) -> M {
        M::Publish { dup: false, qos: 0, retain: false, topic, pkid: 0, props, payload }
    }
    fn packet(&self, n: usize) -> M {
        use Shape::*;
        match self.shape {
            List | WriteList => match self.which % 4 {
                0 => M::Subscribe {
                    pkid: 1,
                    props: vec![],
                    filters: (0..n).map(|i| (format!("f{}", self.item(i)), (i % 3) as u8)).collect(),
                },
                1 => M::Unsubscribe { pkid: 1, props: vec![], filters: (0..n).map(|i| format!("f{}", self.item(i))).collect() },
                2 => M::SubAck { pkid: 1, props: vec![], codes: (0..n).map(|i| (i % 3) as u8).collect() },
                _ if self.ver == V4 => M::SubAck { pkid: 1, props: vec![], codes: vec![0x80; n] },
                _ => M::UnsubAck { pkid: 1, props: vec![], codes: (0..n).map(|i| if i % 2 == 0 { 0 } else { 0x11 }).collect() },
            },
            Props | WriteProps => {
                let tys = [CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT];
                let ty = tys[(self.which / 3) as usize % tys.len()];
                let mut m = super::roundtrip::minimal(ty);
                super::roundtrip::set_props(&mut m, ty, self.pairs(n));
                m
            }
            WillProps | WriteWillProps => {
                let mut m = super::roundtrip::minimal(0);
                super::roundtrip::set_props(&mut m, 0, self.pairs(n));
                m
            }
            SubIds | WriteSubIds => {
                let ids = (0..n)
                    .map(|i| {
                        let v = match self.style {
                            Style::Equal | Style::Empty => 1,
                            Style::Numbered => i + 1,
                            Style::Growing | Style::Wide => 1 + (i * 7919) % MAX_VAR,
                        };
                        (11, PVal::Var(v as u32))
                    })
                    .collect();
                self.publish("t".into(), ids, vec![])
            }
            Payload | WritePayload => {
                self.publish("t".into(), vec![], (0..n * 64).map(|i| (i * 31) as u8).collect())
            }
            Text | WriteText => {
                let unit = ["a", "é", "a/", "\u{10000}"][self.which as usize % 4];
                let t = unit.repeat(n / unit.len() + 1);
                match self.which / 4 % 2 {
                    0 => self.publish(t, vec![], vec![]),
                    _ => M::Unsubscribe { pkid: 1, props: vec![], filters: vec![t] },
                }
            }
            _ => unreachable!(),
        }
    }
    fn small(&self, i: usize) -> M {
        match (self.which + if self.which & 1 == 1 { i as u64 } else { 0 }) / 2 % 6 {
            0 => self.publish(format!("t{}", self.item(i)), vec![], vec![1, 2, 3]),
            1 => M::PingReq,
            2 => M::Ack { ty: PUBACK, pkid: 1 + (i % 60_000) as u16, reason: 0, props: vec![] },
            3 => M::Subscribe { pkid: 7, props: vec![], filters: vec![(format!("f{}", self.item(i)), 0)] },
            4 => self.publish("t".into(), if self.ver == V5 { self.pairs(1) } else { vec![] }, vec![]),
            _ => M::Unsubscribe { pkid: 9, props: vec![], filters: vec![format!("f{}", self.item(i))] },
        }
    }
    fn levels(&self, n: usize) -> Vec<String> {
        (0..n).map(|i| self.item(i)).collect()
    }

    /// Prepare the input with n items; running it is what is measured.
    fn prepare(&self, n: usize) -> Box<dyn FnMut() -> Result<(), String>> {
        use Shape::*;
        let ver = self.ver;
        let ok = |r: Result<P, Error>| match r {
            Ok(_) => Ok(()),
            Err(e) => Err(format!("{e:?}")),
        };
        match self.shape {
            List | Props | WillProps | SubIds | Payload | Text => {
                let f = encode_frame(&self.packet(n), ver, 2);
                let mut b = BytesMut::from(&f[..]);
                Box::new(move || ok(read_raw(&mut b, usize::MAX, ver)))
            }
            Junk => {
                // a frame whose last item is malformed: refused after all the others were read
                let m = match self.which % 2 {
                    0 => M::Unsubscribe { pkid: 1, props: vec![], filters: (0..n).map(|i| format!("f{}", self.item(i))).collect() },
                    _ => M::Subscribe {
                        pkid: 1,
                        props: vec![],
                        filters: (0..n).map(|i| (format!("f{}", self.item(i)), 0)).collect(),
                    },
                };
                let (b1, mut e) = encode(&m, ver, 2);
                e.body.extend([0xff, 0xff, 0x61]);
                let f = frame(b1, &e.body);
                let mut b = BytesMut::from(&f[..]);
                Box::new(move || match read_raw(&mut b, usize::MAX, ver) {
                    Err(_) => Ok(()),
                    Ok(_) => Err("accepted".into()),
                })
            }
            WriteList | WriteProps | WriteWillProps | WriteSubIds | WritePayload | WriteText => {
                let p = to_crate(&self.packet(n), ver, false);
                let mut b = BytesMut::new();
                Box::new(move || p.write_raw(&mut b).map(|_| ()).map_err(|e| format!("{e:?}")))
            }
            WriteMany => {
                let ps: Vec<P> = (0..n).map(|i| to_crate(&self.small(i), ver, false)).collect();
                let mut b = BytesMut::new();
                Box::new(move || {
                    for p in &ps {
                        p.write_raw(&mut b).map_err(|e| format!("{e:?}"))?;
                    }
                    Ok(())
                })
            }
            WriteRefused => {
                // writes that fail leave the buffer alone, and do not walk through it either
                let good = to_crate(&self.small(1), ver, false);
                let bad = to_crate(&self.publish("x".repeat(65_536), vec![], vec![]), ver, false);
                let mut b = BytesMut::new();
                Box::new(move || {
                    for i in 0..n {
                        good.write_raw(&mut b).map_err(|e| format!("{e:?}"))?;
                        if i % 50 == 0 && bad.write_raw(&mut b).is_ok() {
                            return Err("a topic of 65536 bytes was written".into());
                        }
                    }
                    Ok(())
                })
            }
            Frames | DropFrames => {
                let mut f = vec![];
                for i in 0..n {
                    f.extend(encode_frame(&self.small(i), ver, 2));
                }
                let keep = self.shape == Frames;
                let mut b = BytesMut::from(&f[..]);
                Box::new(move || {
                    let mut kept = Vec::with_capacity(if keep { n } else { 0 });
                    for _ in 0..n {
                        let p = read_raw(&mut b, usize::MAX, ver).map_err(|e| format!("{e:?}"))?;
                        if keep {
                            kept.push(p)
                        }
                    }
                    if b.is_empty() {
                        Ok(())
                    } else {
                        Err("bytes left over".into())
                    }
                })
            }
            Drip => {
                // one frame arriving in n pieces, a read after each
                let piece = 1 + (self.which % 24) as usize;
                let f = encode_frame(&self.publish("t".into(), vec![], vec![7; n * piece]), ver, 2);
                let mut b = BytesMut::with_capacity(f.len());
                Box::new(move || {
                    let mut got = false;
                    for c in f.chunks(piece) {
                        b.extend_from_slice(c);
                        match read_raw(&mut b, usize::MAX, ver) {
                            Ok(_) => got = true,
                            Err(e) if more(&e) => {}
                            Err(e) => return Err(format!("{e:?}")),
                        }
                    }
                    if got {
                        Ok(())
                    } else {
                        Err("nothing decoded".into())
                    }
                })
            }
            Poll => {
                // n reads while n bytes of a frame wait for the rest
                let mut f = encode_frame(&self.publish("t".into(), vec![], vec![7; n * 4]), ver, 2);
                f.pop();
                let mut b = BytesMut::from(&f[..]);
                Box::new(move || {
                    for _ in 0..n {
                        match read_raw(&mut b, usize::MAX, ver) {
                            Err(e) if more(&e) => {}
                            _ => return Err("an incomplete frame was read".into()),
                        }
                    }
                    Ok(())
                })
            }
            MatchSame | MatchPlus | MatchHash | MatchMiss | MatchOdd => {
                let mut t = self.levels(n);
                let mut f = t.clone();
                let mut want = true;
                match self.shape {
                    MatchPlus => {
                        for (i, l) in f.iter_mut().enumerate() {
                            if (i as u64) % (1 + self.which % 3) == 0 {
                                *l = "+".into()
                            }
                        }
                    }
                    MatchHash => {
                        if self.which & 1 == 1 {
                            f.truncate(n - 1 - (self.which as usize % (n / 2)));
                        }
                        f.push("#".into());
                    }
                    MatchMiss => {
                        for l in f.iter_mut() {
                            *l = "+".into()
                        }
                        f[n - 1] = "no such level".into();
                        want = false;
                    }
                    MatchOdd => {
                        // + at many levels, and the other one longer or shorter by a few
                        let w = self.which as usize;
                        let every = [1, 1, 2, 3, 1 << 40][w % 5];
                        let plus = |i: usize| i % every == w / 5 % every.min(7);
                        for (i, l) in f.iter_mut().enumerate() {
                            if plus(i) {
                                *l = "+".into()
                            }
                        }
                        let by = 1 + w / 35 % 3;
                        match w / 105 % 6 {
                            0 => t.truncate(n - by),
                            1 => f.truncate(n - by),
                            2 => f.extend(vec!["+".into(); by]),
                            3 => t.extend(vec!["same".into(); by]),
                            4 => {
                                f.truncate(n - 1);
                                f.extend(["no such level".into(), "#".into()]);
                            }
                            _ => {
                                // # one level too far
                                f.extend(["+".into(), "#".into()]);
                            }
                        }
                        want = false;
                    }
                    _ => {}
                }
                let (t, f) = (t.join("/"), f.join("/"));
                Box::new(move || {
                    if matches(&t, &f) == want {
                        Ok(())
                    } else {
                        Err(format!("matches() is {}", !want))
                    }
                })
            }
            NewMany => {
                let ps: Vec<String> = (0..n).map(|i| format!("f{}", self.item(i))).collect();
                Box::new(move || {
                    let got = match ver {
                        V4 => {
                            let l = ps.iter().map(|p| v4::SubscribeFilter::new(p.clone(), QoS::AtLeastOnce));
                            v4::Subscribe::new_many(l).map_err(|e| format!("{e:?}"))?.filters.len()
                        }
                        V5 => {
                            let l = ps.iter().map(|p| v5::SubscribeFilter::new(p.clone(), QoS::AtLeastOnce));
                            v5::Subscribe::new_many(l).filters.len()
                        }
                    };
                    if got == ps.len() {
                        Ok(())
                    } else {
                        Err(format!("{got} filters of {}", ps.len()))
                    }
                })
            }
            AddMany => {
                let ps: Vec<String> = (0..n).map(|i| format!("f{}", self.item(i))).collect();
                Box::new(move || {
                    match ver {
                        V4 => {
                            let mut x = v4::Subscribe::new("a", QoS::AtLeastOnce);
                            for p in &ps {
                                x.add(p.clone(), QoS::AtMostOnce);
                            }
                        }
                        V5 => {
                            let mut x = v5::Subscribe::new("a", QoS::AtLeastOnce);
                            for p in &ps {
                                x.add(p.clone(), QoS::AtMostOnce);
                            }
                        }
                    }
                    Ok(())
                })
            }
            Clones | Equals | Prints => {
                let shape = if ver == V4 {
                    [List, List, Payload, Text][self.which as usize / 36 % 4]
                } else {
                    [List, Props, Props, WillProps, SubIds, Payload, Text][self.which as usize / 36 % 7]
                };
                let m = Pick { shape, ..*self }.packet(n);
                let (a, b) = (to_crate(&m, ver, false), to_crate(&m, ver, false));
                let what = self.shape;
                Box::new(move || {
                    let well = match (what, &a, &b) {
                        (Clones, P::P4(a), _) => a.clone() == *a,
                        (Clones, P::P5(a), _) => a.clone() == *a,
                        (Equals, P::P4(a), P::P4(b)) => a == b,
                        (Equals, P::P5(a), P::P5(b)) => a == b,
                        (_, P::P4(a), _) => !format!("{a:?}").is_empty(),
                        (_, P::P5(a), _) => !format!("{a:?}").is_empty(),
                    };
                    if well {
                        Ok(())
                    } else {
                        Err("equal packets compare unequal".into())
                    }
                })
            }
            Check => {
                let mut t = self.levels(n);
                let plain = t.join("/");
                for (i, l) in t.iter_mut().enumerate() {
                    if (i as u64) % (1 + self.which % 3) == 0 {
                        *l = "+".into()
                    }
                }
                t.push("#".into());
                let f = t.join("/");
                Box::new(move || {
                    if valid_filter(&f) && has_wildcards(&f) && !has_wildcards(&plain) && valid_topic(&plain) && !valid_topic(&f) {
                        Ok(())
                    } else {
                        Err("a long topic or filter is judged wrongly".into())
                    }
                })
            }
        }
    }
}

/// CPU time of this thread in nanoseconds.
fn cpu() -> u64 {
    let mut t = crate::clock::TimeSpec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { crate::clock::clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

fn once(c: &mut Ctx, p: &Pick, n: usize) -> Result<(usize, u64), Fail> {
    let mut w = p.prepare(n);
    let t = cpu();
    let (r, bytes) = total(|| call("the crate", &mut w));
    let t = cpu() - t;
    match r? {
        Ok(()) => Ok((bytes, t)),
        // whether the answer is right is for other checks
        Err(e) => {
            c.label("answered wrongly");
            c.note(|| e);
            Ok((0, 0))
        }
    }
}

fn scale(s: &mut Src, c: &mut Ctx, shapes: &[Shape]) -> R {
    let p = Pick {
        shape: *s.pick(shapes),
        ver: if s.flag() { V5 } else { V4 },
        style: STYLES[s.weighted(&[2, 4, 3, 1, 3])],
        which: s.below(1 << 16),
    };
    let n = s.range(300, 1000) as usize;
    measure(c, p, n)
}

const STYLES: [Style; 5] = [Style::Equal, Style::Numbered, Style::Growing, Style::Empty, Style::Wide];

/// Every shape with a list or properties in it, for every packet type.
fn every(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(EVERY.len() as u64 * 2 * 5 * 36);
    let (which, i) = (i % 36, i / 36);
    let p = Pick {
        shape: EVERY[(i / 10) as usize],
        ver: if i % 2 == 0 { V4 } else { V5 },
        style: STYLES[(i / 2 % 5) as usize],
        which,
    };
    measure(c, p, 300 + (which * 17) as usize)
}

fn every_value(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(3 * 11 * 5 * 36);
    let (which, i) = (i % 36, i / 36);
    let (style, i) = (STYLES[(i % 5) as usize], i / 5);
    let (sub, what) = (i % 11, i / 11);
    let p = Pick {
        shape: [Shape::Clones, Shape::Equals, Shape::Prints][what as usize],
        ver: if sub < 4 { V4 } else { V5 },
        style,
        which: which + 36 * if sub < 4 { sub } else { sub - 4 },
    };
    measure(c, p, 300 + (which * 17) as usize)
}

fn measure(c: &mut Ctx, p: Pick, n: usize) -> R {
    let v5only = matches!(
        p.shape,
        Shape::Props | Shape::WillProps | Shape::SubIds | Shape::WriteProps | Shape::WriteWillProps | Shape::WriteSubIds
    );
    let p = Pick { ver: if v5only { V5 } else { p.ver }, ..p };
    let big = n * TIMES;
    c.note(|| format!("{:?} {} {:?} {} with {n} and {big} items", p.shape, vname(p.ver), p.style, p.which));
    c.subject(format!("{:?} {} {:?} {} {n}", p.shape, vname(p.ver), p.style, p.which).as_bytes());
    c.label(shape_name(p.shape));
    c.nontrivial = !matches!(p.style, Style::Equal | Style::Empty);
    let mut first = String::new();
    for _ in 0..ROUNDS {
        let mut a1 = usize::MAX;
        let mut t1 = u64::MAX;
        // the small input once more after the large one, and the slower of the kinder readings counts
        for _ in 0..3 {
            let (a, t) = once(c, &p, n)?;
            a1 = a1.min(a);
            t1 = t1.min(t);
        }
        let (a2, mut t2) = once(c, &p, big)?;
        let most = TIMES * ALLOC_SLACK * a1 + 65_536;
        ensure!(
            a2 <= most,
            "{:?} {} {:?} {}: {n} items allocate {a1} bytes in all, {big} items {a2} (at most {most})",
            p.shape,
            vname(p.ver),
            p.style,
            p.which
        );
        let limit = TIMES as u64 * CPU_SLACK * t1 + CPU_CONST;
        for _ in 0..2 {
            if t2 > limit && t2 <= 20 * limit {
                t2 = t2.min(once(c, &p, big)?.1);
            }
        }
        if t2 <= limit {
            return Ok(());
        }
        if first.is_empty() {
            first = format!(
                "{:?} {} {:?} {}: {n} items take {} µs of CPU time, {big} items {} µs (at most {} µs)",
                p.shape,
                vname(p.ver),
                p.style,
                p.which,
                t1 / 1000,
                t2 / 1000,
                limit / 1000
            );
        }
        if t2 > 20 * limit {
            break;
        }
    }
    fail(first)
}

fn shape_name(s: Shape) -> &'static str {
    use Shape::*;
    match s {
        List => "shape: list",
        Props => "shape: properties",
        WillProps => "shape: will properties",
        SubIds => "shape: subscription identifiers",
        Payload => "shape: payload",
        Text => "shape: long text",
        Junk => "shape: refused at the end",
        WriteList => "shape: write list",
        WriteProps => "shape: write properties",
        WriteWillProps => "shape: write will properties",
        WriteSubIds => "shape: write subscription identifiers",
        WritePayload => "shape: write payload",
        WriteText => "shape: write long text",
        WriteMany => "shape: write many into one buffer",
        WriteRefused => "shape: writes refused between others",
        Frames => "shape: many frames, all kept",
        Drip => "shape: one frame in many pieces",
        Poll => "shape: many reads of an incomplete frame",
        DropFrames => "shape: many frames, none kept",
        MatchSame => "shape: equal topic and filter",
        MatchPlus => "shape: filter with +",
        MatchHash => "shape: filter with #",
        MatchMiss => "shape: + everywhere, then a miss",
        MatchOdd => "shape: + and another number of levels",
        Check => "shape: validity",
        NewMany => "shape: new_many",
        AddMany => "shape: add",
        Clones => "shape: clones",
        Equals => "shape: comparison",
        Prints => "shape: debug output",
    }
}
