//! C19, C21

use super::encode::Field;
use super::*;
use crate::alloc::{live, peak};
use crate::{capture, gen};

/// Bytes the reader may allocate per byte of frame, and besides.
const FACTOR: usize = 64;
const CONST: usize = 4096;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            rule: "peak bytes allocated during one read call, counted by the global allocator: frames of any quality (also inside a stream with more bytes behind), frames of thousands of minimal items, large packets damaged anywhere, lying inner lengths, streams announcing up to 268435455 bytes of which few arrived, frames over the limit; histories of 400 different packets read, written, refused and dropped, by what stays allocated (bound: as for one of them), and any frame after which memory stays allocated 4096 times more; bound 64 bytes per frame byte (per byte present when incomplete or refused: none) plus 4096; non-trivial: an announced length exceeds the content or the frame has more than 100 items; distinct by wire bytes",
            parts: vec![
                Part::random("v4 frames", 2_400_000, 24_000_000, |s, c| mem_frame(s, c, V4)),
                Part::random("v5 frames", 2_400_000, 24_000_000, |s, c| mem_frame(s, c, V5)),
                Part::random("lying lengths", 3_600_000, 36_000_000, mem_lies),
                Part::random("many items", 24_000, 240_000, mem_many),
                Part::random("large packets", 1_600, 32_000, |s, c| {
                    let ver = if s.flag() { V5 } else { V4 };
                    let f = super::roundtrip::large_frame(s, ver);
                    c.subject(&f);
                    c.note(|| format!("{} {}", vname(ver), hex(&f)));
                    c.nontrivial = f.len() > 100;
                    mem_of(&f, 0, ver).map(|_| ())
                }),
                Part::random("incomplete or over the limit", 2_400_000, 24_000_000, mem_short),
                Part::random("nothing is kept", 36_000, 360_000, mem_kept),
            ],
        },
        Prop {
            id: "C21",
            rule: "sets of frames and packets decoded and encoded repeatedly in random order, interleaved, with file descriptors 1 and 2 captured; streams refilled, overwritten and dropped under decoded packets; one packet up to 1.1 million times; sets of packets by six threads at once, and before and after a pause of over a second; the same work in processes with other environment variables (every word in the source as a name, several values), locale, directory, arguments and standard streams; non-trivial: at least one frame accepted with a non-empty body; distinct by wire bytes",
            parts: vec![
                Part::random("silence", 24_000, 360_000, silent).serial(),
                Part::random("silence, every packet", 256, 3_840, silent_all).serial(),
                Part::random("silence, large packets", 480, 9_600, silent_large).serial(),
                Part::random("surroundings", 64, 1_280, surroundings).serial(),
                Part::random("repetition", 720_000, 7_200_000, repeat),
                Part::random("related packets", 480_000, 4_800_000, related),
                Part::all("long repetition", LONG, long_repetition),
                Part::random("long repetition of anything", 64, 1_280, long_any),
                Part::random("at once", 96, 1_920, at_once).serial(),
                Part::random("after a pause", 12, 60, pause).serial(),
                Part::random("aliasing", 2_400_000, 24_000_000, alias),
            ],
        },
    ]
}

fn measured(stream: &mut BytesMut, max: usize, ver: Ver) -> Result<(Result<P, Error>, usize), Fail> {
    let (r, pk) = peak(|| read(stream, max, ver));
    Ok((r?, pk))
}

fn bounded(what: &str, f: &[u8], pk: usize, limit: usize) -> R {
    ensure!(
        pk <= limit,
        "{what}: reading {} ({} bytes) allocated {pk} bytes, the bound is {limit}",
        hex(f),
        f.len()
    );
    Ok(())
}

fn mem_of(f: &[u8], tail: usize, ver: Ver) -> Result<bool, Fail> {
    let before = live();
    let r = mem_once(f, tail, ver)?.is_ok();
    if live() > before {
        // made once and kept, or once per read?
        let limit = 8 * f.len() + CONST;
        let before = live();
        for _ in 0..64 {
            for _ in 0..64 {
                let _ = mem_once(f, 0, ver)?;
            }
            if live() <= before {
                return Ok(r);
            }
        }
        let kept = live() - before;
        ensure!(
            kept <= limit as isize,
            "{}: {} read (and written, where accepted) 4096 times and dropped leaves {kept} bytes allocated",
            vname(ver),
            hex(f)
        );
    }
    Ok(r)
}

fn mem_once(f: &[u8], tail: usize, ver: Ver) -> Result<Result<P, Error>, Fail> {
    let mut st = BytesMut::with_capacity(f.len() + tail);
    st.extend_from_slice(f);
    st.resize(f.len() + tail, 0x30);
    let (r, pk) = measured(&mut st, usize::MAX, ver)?;
    bounded(vname(ver), f, pk, FACTOR * f.len() + CONST)?;
    // the per-packet reader too
    let mut st = BytesMut::from(f);
    if let Ok(h) = call("check", || mqttbytes::check(st.iter(), usize::MAX))? {
        let b = st.split_to(f.len()).freeze();
        let (q, pk) = peak(|| call("per-packet reader", || per_packet(h, b, ver)));
        let _ = q?;
        bounded(vname(ver), f, pk, FACTOR * f.len() + CONST)?;
    }
    if let (Ok(p), true) = (&r, f.len() < 2_000) {
        let k = call("clone", || p.clone())?;
        let _ = k.write(&mut BytesMut::new())?;
    }
    Ok(r)
}

fn mem_frame(s: &mut Src, c: &mut Ctx, ver: Ver) -> R {
    let (f, from) = gen::any_frame(s, ver);
    c.label(from);
    c.subject(&f);
    let tail = if s.chance(1, 20) { 256 << 10 } else { s.below(3) as usize * 50 };
    c.note(|| format!("{} {} with {tail} bytes behind", vname(ver), hex(&f)));
    c.nontrivial = from == gen::F_MUT;
    let r = mem_of(&f, tail, ver)?;
    c.label(if r { "accepted" } else { "rejected" });
    Ok(())
}

/// A valid frame in which one inner length is raised to a large value.
fn mem_lies(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let m = gen::model(s, ver);
    let (b1, mut e) = encode(&m, ver, 2);
    let ms: Vec<Mark> =
        e.marks.iter().copied().filter(|k| matches!(k.kind, K::Len16 | K::PropLen | K::VarVal)).collect();
    if ms.is_empty() {
        return Ok(());
    }
    let k = *s.pick(&ms);
    match k.kind {
        K::Len16 => {
            let v = *s.pick(&[0xffffu16, 0x8000, 0x7fff, 0x4000, 0x2000]);
            e.body[k.at..k.at + 2].copy_from_slice(&v.to_be_bytes());
        }
        _ => {
            let v = *s.pick(&[MAX_VAR, 1 << 27, 1 << 20, 2_097_151, 16_383, 1 << 16]);
            e.body.splice(k.at..k.at + k.len, var(v));
        }
    }
    let f = frame(b1, &e.body);
    c.subject(&f);
    c.note(|| format!("{} {}", vname(ver), hex(&f)));
    c.label(TYPE_NAMES[m.ty() as usize]);
    c.nontrivial = true;
    mem_of(&f, 0, ver).map(|_| ())
}

fn mem_many(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let n = match s.below(3) {
        0 => s.range(100, 1000),
        1 => s.range(1000, 6000),
        _ => *s.pick(&[4096, 4097, 8192, 8193, 16385]),
    } as usize;
    let props_of = |n: usize, id: u8| -> Props {
        vec![(id, if id == 11 { PVal::Var(1) } else { PVal::Pair(String::new(), String::new()) }); n]
    };
    let kind = s.below(if ver == V5 { 12 } else { 3 });
    let m = match kind {
        0 => M::Subscribe { pkid: 1, props: vec![], filters: vec![(String::new(), 0); n] },
        1 => M::Unsubscribe { pkid: 1, props: vec![], filters: vec![String::new(); n] },
        2 => M::SubAck { pkid: 1, props: vec![], codes: vec![0; n] },
        3 => M::UnsubAck { pkid: 1, props: vec![], codes: vec![0; n] },
        4 => M::Publish {
            dup: false,
            qos: 0,
            retain: false,
            topic: "t".into(),
            pkid: 0,
            props: props_of(n, 11),
            payload: vec![],
        },
        k => {
            let ty = [CONNECT, 0, CONNACK, PUBLISH, PUBACK, SUBSCRIBE, DISCONNECT][k as usize - 5];
            let mut m = super::roundtrip::minimal(ty);
            super::roundtrip::set_props(&mut m, ty, props_of(n, 38));
            m
        }
    };
    let mut f = encode_frame(&m, ver, 0);
    if s.chance(1, 3) {
        // broken at the very end, after everything was collected
        let l = f.len();
        f[l - 1] = 0xff;
    }
    c.subject(&f);
    c.nontrivial = true;
    c.label(TYPE_NAMES[m.ty() as usize]);
    c.note(|| format!("{} {} with {n} minimal items", vname(ver), TYPE_NAMES[m.ty() as usize]));
    mem_of(&f, 0, ver).map(|_| ())
}

fn mem_short(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let n = match s.below(3) {
        0 => *s.pick(&[MAX_VAR, MAX_VAR - 1, 1 << 27, 2_097_152, 65_536]),
        1 => s.range(20_000, MAX_VAR as u64) as usize,
        _ => s.range(20_000, 400_000) as usize,
    };
    let (mut f, over) = {
        let mut f = vec![s.byte()];
        f.extend(var(n));
        (f, s.flag())
    };
    let have = match s.below(3) {
        0 => s.below(4) as usize,
        _ => s.below(1000) as usize,
    };
    f.extend(std::iter::repeat(0).take(have));
    let max = if over { s.below(n as u64) as usize } else { usize::MAX };
    let cap = f.len() + s.below(200) as usize;
    let mut st = BytesMut::with_capacity(cap);
    st.extend_from_slice(&f);
    c.subject(&f);
    c.nontrivial = true;
    c.label(if over { "over the limit" } else { "incomplete" });
    c.note(|| format!("{} stream announcing {n} bytes, {have} there, limit {max}", vname(ver)));
    for _ in 0..3 {
        let (r, pk) = measured(&mut st, max, ver)?;
        bounded(&format!("{} stream announcing {n} bytes (limit {max})", vname(ver)), &f, pk, CONST)?;
        let ok = match &r {
            Err(Error::PayloadSizeLimitExceeded(x)) => over && *x == n,
            Err(e) => !over && more(e),
            Ok(_) => false,
        };
        ensure!(ok, "{} stream announcing {n} bytes, {have} there, limit {max}: {r:?}", vname(ver));
        ensure!(
            st.capacity() <= cap + CONST,
            "{} stream announcing {n} bytes: the stream grew to a capacity of {}",
            vname(ver),
            st.capacity()
        );
    }
    Ok(())
}

/// After a long history of packets that differ from one another, all of them dropped, no more memory is held than
/// one of them may take.
fn mem_kept(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let mut m = gen::model(s, ver);
    let mut small = true;
    super::encode::visit(&mut m, &mut |_, f| match f {
        Field::S(x) => small &= x.len() < 400,
        Field::B(x) => small &= x.len() < 400,
    });
    let size = encode_frame(&m, ver, 0).len() + 200;
    if !small || size > 2000 {
        return Ok(());
    }
    let what = s.weighted(&[2, 2, 8, 2, 1]);
    // the damage done: the same to all, at the same place from the end, or anywhere
    let (hit, by) = (s.below(80) as usize, *s.pick(&[0xffu8, 1, 2, 3, 0x80, 0x10]));
    let roving = s.chance(1, 4);
    let limit = 8 * size + CONST;
    c.subject(&encode_frame(&m, ver, 0));
    c.label(["reading", "reading, cut short", "reading damaged frames", "writing", "topics"][what]);
    c.note(|| format!("{} {m:?} in 400 variations, kind {what}, {by} at {hit}", vname(ver)));
    c.nontrivial = true;
    let pad = s.below(40) as usize;
    let turn = |n: usize| -> R {
        let mut k = m.clone();
        let tag = format!("{n:05}{}", "q".repeat(pad));
        super::encode::visit(&mut k, &mut |_, f| match f {
            Field::S(x) => x.push_str(&tag),
            Field::B(x) => x.extend_from_slice(tag.as_bytes()),
        });
        if let M::Publish { payload, .. } = &mut k {
            payload.extend_from_slice(tag.as_bytes());
        }
        let mut f = encode_frame(&k, ver, 0);
        match what {
            0 => {
                let _ = read(&mut BytesMut::from(&f[..]), usize::MAX, ver)?;
            }
            1 => {
                let l = f.len();
                let mut st = BytesMut::from(&f[..l - 1 - n % (l - 1)]);
                for max in [usize::MAX, 10] {
                    let _ = read(&mut st, max, ver)?;
                }
            }
            2 => {
                let l = f.len();
                let k = if roving { n } else { hit };
                f[l - 1 - k % (l - 1)] ^= by;
                let _ = read(&mut BytesMut::from(&f[..]), usize::MAX, ver)?;
            }
            3 => {
                let p = to_crate(&k, ver, true);
                let mut o = BytesMut::new();
                let _ = p.write(&mut o)?;
                let _ = (call("clone", || p.clone() == p)?, call("Debug", || format!("{p:?}"))?);
            }
            _ => {
                call("topics", || {
                    let _ = (mqttbytes::matches(&tag, "a/+"), mqttbytes::valid_filter(&tag), mqttbytes::valid_topic(&tag));
                    let _ = (mqttbytes::matches("a/b", &tag), mqttbytes::has_wildcards(&tag));
                })?;
            }
        }
        Ok(())
    };
    // what is made once and kept is no leak
    turn(0)?;
    let before = live();
    for n in 1..400 {
        turn(n)?;
    }
    let kept = live() - before;
    ensure!(
        kept <= limit as isize,
        "{}: 400 variations of {m:?} (kind {what}) leave {kept} bytes allocated, one of them takes up to {limit}",
        vname(ver)
    );
    Ok(())
}

// ---------------------------------------------------------------- C21

fn quiet(c: &mut Ctx, what: &str, f: impl FnOnce(&mut Ctx) -> R) -> R {
    let (r, out) = capture::during(|| f(c));
    r?;
    ensure!(out.is_empty(), "{what} wrote to the process's output: {:?}", String::from_utf8_lossy(&out));
    Ok(())
}

fn exercise(f: &[u8], ver: Ver) -> Result<bool, Fail> {
    let a = read_frame(f, ver)?;
    let _ = read_per_packet(f, ver)?;
    if let Ok(p) = &a {
        let mut b = BytesMut::new();
        let _ = p.write(&mut b)?;
    }
    Ok(a.is_ok())
}

fn silent(s: &mut Src, c: &mut Ctx) -> R {
    let n = if s.chance(1, 8) { s.range(50, 300) } else { s.range(1, 12) };
    let mut fs = vec![];
    for _ in 0..n {
        let ver = if s.flag() { V5 } else { V4 };
        fs.push((gen::any_frame(s, ver).0, ver));
    }
    let t = gen::topic(s);
    let g = gen::filter(s);
    for (f, v) in &fs {
        c.subject(f);
        c.note(|| format!("{} {}", vname(*v), hex(f)));
    }
    quiet(c, "decoding and encoding", |c| {
        for (f, v) in &fs {
            c.nontrivial |= exercise(f, *v)? && f.len() > 2;
            // incomplete and oversize
            let mut st = BytesMut::from(&f[..f.len() - 1]);
            let _ = read(&mut st, usize::MAX, *v)?;
            let _ = read(&mut st, 0, *v)?;
        }
        call("topics", || {
            let _ = (mqttbytes::matches(&t, &g), mqttbytes::valid_filter(&g), mqttbytes::valid_topic(&t));
        })?;
        // writes that fail
        let _ = P::P4(to4(&M::Publish {
            dup: false,
            qos: 1,
            retain: false,
            topic: t.clone(),
            pkid: 0,
            props: vec![],
            payload: vec![],
        }))
        .write(&mut BytesMut::new())?;
        Ok(())
    })
}

fn silent_all(s: &mut Src, c: &mut Ctx) -> R {
    let ms: Vec<(M, Ver)> =
        [V4, V5].iter().flat_map(|v| (1..=14u8).map(move |t| (t, *v))).map(|(t, v)| (gen::model_of(s, v, t), v)).collect();
    c.nontrivial = true;
    quiet(c, "decoding and encoding valid packets", |c| {
        for (m, v) in &ms {
            let f = encode_frame(m, *v, 0);
            c.subject(&f);
            exercise(&f, *v)?;
            let p = to_crate(m, *v, false);
            let _ = p.bytes()?;
            let _ = call("Debug", || format!("{p:?}"))?;
        }
        Ok(())
    })?;
    c.note(|| "one packet of every type of both versions".into());
    Ok(())
}

/// Packets of large fields and long lists, long topics and filters.
fn silent_large(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let f = if s.chance(1, 3) {
        encode_frame(&super::roundtrip::large_ty(s, ver, PUBLISH), ver, 0)
    } else {
        super::roundtrip::large_frame(s, ver)
    };
    c.subject(&f);
    c.note(|| format!("{} {}", vname(ver), hex(&f)));
    let unit = *s.pick(&["a/", "é", "x", "/", "+/", "$"]);
    let t = unit.repeat(s.range(100, 300_000) as usize);
    quiet(c, "decoding and encoding a large packet", |c| {
        c.nontrivial |= exercise(&f, ver)? && f.len() > 2;
        if let Ok(p) = read_frame(&f, ver)? {
            let q = call("clone", || p.clone())?;
            call("==", || p == q)?;
            let mut q = q;
            call("clone_from", || q.clone_from(&p))?;
            call("Debug", || format!("{p:?}"))?;
            let _ = call("len", || (p.public_len(), p.public_props_len()))?;
        }
        let mut st = BytesMut::from(&f[..f.len() - 1]);
        let _ = read(&mut st, usize::MAX, ver)?;
        let _ = read(&mut st, 0, ver)?;
        call("topics", || {
            let _ = (mqttbytes::matches(&t, &t), mqttbytes::valid_filter(&t), mqttbytes::valid_topic(&t));
            let _ = mqttbytes::has_wildcards(&t);
        })
    })
}

/// Line by line, what the crate says to one generated input after the other; in the thread of the caller, in one
/// of another name, or in a new thread for every few inputs.
///
/// With `time`, on another date, with pauses of up to years, and every input a second time after one.
pub fn digest(seed: u64, n: u64, place: &str, time: bool) -> Vec<u64> {
    let of = |i: u64| {
        let d = digest_of(seed, i).1;
        if !time {
            return d;
        }
        let mut r = Src::random(case_seed(seed, "C21", "time", i));
        if i % 100 == 0 {
            crate::clock::date(r.below(100 * 365 * 86_400) as i64 - 20 * 365 * 86_400);
        }
        let mut pause = || {
            let most = *r.pick(&[0, 3, 20, 100, 700, 4_000, 100_000, 3_000_000, 100_000_000]);
            crate::clock::forward(r.range(0, most) as i64);
        };
        pause();
        let again = digest_of(seed, i).1;
        pause();
        if again == d { d } else { !d }
    };
    let named = |name: &str, stack: usize, r: std::ops::Range<u64>| -> Vec<u64> {
        std::thread::scope(|s| {
            let b = std::thread::Builder::new().name(name.into()).stack_size(stack);
            b.spawn_scoped(s, || r.map(of).collect()).unwrap().join().unwrap()
        })
    };
    let words = &crate::dict::dict().words;
    let name = |i: u64| words[i as usize % words.len()].replace('\0', "");
    match place {
        "main" => (0..n).map(of).collect(),
        "other" => named("main", 64 << 20, 0..n),
        "each" => (0..n).step_by(10).flat_map(|i| named(&name(i / 10), 4 << 20, i..(i + 10).min(n))).collect(),
        _ => named("tokio-runtime-worker", 16 << 20, 0..n),
    }
}

fn digest_of(seed: u64, i: u64) -> (String, u64) {
    use std::hash::Hasher;
    let mut s = Src::random(case_seed(seed, "C21", "surroundings", i));
    let s = &mut s;
    let ver = if s.flag() { V5 } else { V4 };
    let f = if i % 40 == 39 { super::roundtrip::large_frame(s, ver) } else { gen::any_frame(s, ver).0 };
    let (t, g) = (gen::topic(s), gen::filter(s));
    let max = if s.flag() { usize::MAX } else { s.below(400) as usize };
    let m = if i % 40 == 38 { super::roundtrip::large(s, ver) } else { gen::model(s, ver) };
    let text = clip(format!("{} {} limit {max}, topic {t:?}, filter {g:?}, {m:?}", vname(ver), hex(&f)));
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut say = |x: String| {
        h.write(x.as_bytes());
        h.write_u8(0xff);
    };
    let p = to_crate(&m, ver, true);
    let r = (|| -> R {
        let mut st = BytesMut::from(&f[..]);
        let r = read(&mut st, max, ver)?;
        say(format!("{r:?} {}", st.len()));
        if let Err(e) = &r {
            say(e.to_string());
        }
        say(format!("{:?}", call("check", || mqttbytes::check(f.iter(), max))?));
        say(format!("{:?}", read_per_packet(&f, ver)?));
        for p in [&p].into_iter().chain(&r) {
            let (n, b) = written(p)?;
            say(format!("{n:?} {b:?}"));
            say(format!("{:?} {p:?} {:?} {:?}", p.model(), p.public_len(), p.public_props_len()));
        }
        say(call("topics", || {
            use mqttbytes::*;
            format!("{} {} {} {}", matches(&t, &g), valid_filter(&g), valid_topic(&g), has_wildcards(&g))
        })?);
        Ok(())
    })();
    if let Err(e) = r {
        say(e.msg);
    }
    (text, h.finish())
}

const PER_PROCESS: u64 = 800;

/// A directory of files with telling names, removed when done.
struct Place(std::path::PathBuf);

impl Place {
    fn new(words: &[&String], value: &str) -> std::io::Result<Place> {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("harness-place-{}-{n}", std::process::id()));
        std::fs::create_dir(&d)?;
        let p = Place(d);
        for w in words {
            // only plain names: nothing outside of the directory
            if w.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c)) && !w.starts_with("..") && *w != "." {
                std::fs::write(p.0.join(w), value)?;
            }
        }
        Ok(p)
    }
}

impl Drop for Place {
    fn drop(&mut self) {
        for e in std::fs::read_dir(&self.0).into_iter().flatten().flatten() {
            let _ = std::fs::remove_file(e.path());
        }
        let _ = std::fs::remove_dir(&self.0);
    }
}

/// A process of its own does the same work in other surroundings.
fn surroundings(s: &mut Src, c: &mut Ctx) -> R {
    let seed = s.below(1 << 32);
    let value = *s.pick(&["1", "0", "true", "", "yes", "16", "strict", "debug", "off", "100", "/", "é"]);
    let only = s.below(4);
    let place = *s.pick(&["main", "other", "each"]);
    let time = s.flag();
    let words: Vec<&String> = crate::dict::dict()
        .words
        .iter()
        .filter(|w| !w.is_empty() && w.len() < 100 && !w.contains(['=', '\0', '{', ' ']))
        .collect();
    let usual = ["RUST_LOG", "RUST_BACKTRACE", "DEBUG", "TRACE", "LANG", "LC_ALL", "LC_CTYPE", "TZ", "HOME", "USER", "PATH", "TMPDIR", "CI", "TERM", "NO_COLOR"];
    let broken = |e: std::io::Error| Fail { msg: format!("the harness cannot prepare or start itself: {e}") };
    let dir = if s.flag() { Some(Place::new(&words, value).map_err(broken)?) } else { None };
    let start = |changed: bool| {
        use std::process::*;
        let mut k = Command::new(std::env::current_exe().unwrap());
        let (place, time) = if changed { (place, time) } else { ("usual", false) };
        k.args(["digest", &seed.to_string(), &PER_PROCESS.to_string(), place, if time { "time" } else { "now" }]).env_clear();
        k.stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::piped());
        if changed {
            for w in &words {
                k.env(w, value);
            }
            if only > 0 {
                for w in usual {
                    k.env(w, if w == "LC_ALL" { "tr_TR.UTF-8" } else { value });
                }
                k.current_dir("/").arg(value);
            }
            if only > 1 {
                k.stdin(Stdio::piped()).stderr(Stdio::piped());
            }
            if let Some(d) = &dir {
                k.current_dir(&d.0).env("HOME", &d.0);
            }
        }
        k.spawn()
    };
    c.subject(format!("{seed} {value} {only} {place} {time}").as_bytes());
    c.note(|| {
        let files = if dir.is_some() { ", and files of these names in the working directory" } else { "" };
        let files = format!("{files}{}", if time { ", at other times" } else { "" });
        format!("inputs of seed {seed}, thread: {place}, environment variables {words:?} and others set to {value:?}{files}")
    });
    c.nontrivial = true;
    let (a, b) = (start(false).map_err(broken)?, start(true).map_err(broken)?);
    let end = |k: std::process::Child| -> Result<Vec<u64>, Fail> {
        let o = k.wait_with_output().map_err(broken)?;
        ensure!(o.status.success(), "the process ended with {}", o.status);
        Ok(String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.strip_prefix("digest ")).filter_map(|l| l.parse().ok()).collect())
    };
    // both have to be waited for
    let (a, b) = (end(a), end(b));
    let (a, b) = (a?, b?);
    ensure!(a.len() == PER_PROCESS as usize && b.len() == a.len(), "a process did {} of {PER_PROCESS} inputs, the other {}", a.len(), b.len());
    for i in 0..a.len() {
        ensure!(
            a[i] == b[i],
            "{} gives one result in a process without environment, another in thread {place} with these variables set to {value:?}: {words:?} (files of these names: {}; other times: {time})",
            digest_of(seed, i as u64).0,
            dir.is_some()
        );
    }
    Ok(())
}

fn written(p: &P) -> Result<(Result<usize, Error>, Vec<u8>), Fail> {
    let mut o = BytesMut::new();
    let n = p.write(&mut o)?;
    Ok((n, o.to_vec()))
}

fn repeat(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.range(2, 6) as usize;
    let mut fs = vec![];
    let mut first = vec![];
    let mut packets = vec![];
    for _ in 0..n {
        let ver = if s.flag() { V5 } else { V4 };
        if s.chance(1, 3) {
            let mut m = gen::model(s, ver);
            while s.chance(1, 4) {
                gen::free(s, &mut m, ver);
            }
            let p = to_crate(&m, ver, s.flag());
            let b = written(&p)?;
            c.subject(&b.1);
            c.note(|| format!("{} encode {m:?}", vname(ver)));
            packets.push((p.clone(), p, b));
        } else {
            let (f, _) = gen::any_frame(s, ver);
            c.subject(&f);
            c.note(|| format!("{} decode {}", vname(ver), hex(&f)));
            let r = read_frame(&f, ver)?;
            c.nontrivial |= r.is_ok() && f.len() > 2;
            fs.push((f, ver));
            first.push(r);
        }
    }
    for _ in 0..s.range(2, 8) {
        while s.chance(1, 4) {
            noise(s)?;
        }
        let k = s.below((fs.len() + packets.len()) as u64) as usize;
        if k < fs.len() {
            let (f, ver) = &fs[k];
            let r = if s.flag() {
                read_frame(f, *ver)?
            } else {
                // the same bytes somewhere else in memory, in a longer stream
                let pad = s.below(40) as usize;
                let mut st = BytesMut::with_capacity(f.len() + pad + 64);
                st.extend_from_slice(&vec![0x55; pad]);
                let _ = st.split_to(pad);
                st.extend_from_slice(f);
                st.extend_from_slice(&[0xC0, 0]);
                read(&mut st, usize::MAX, *ver)?
            };
            ensure!(
                r == first[k],
                "{} {} decoded as {:?} first and as {r:?} later",
                vname(*ver),
                hex(f),
                first[k]
            );
        } else {
            let (orig, p, b) = &packets[k - fs.len()];
            let o = written(p)?;
            ensure!(o == *b, "{p:?} encoded as {:?} {} first and as {:?} {} later", b.0, hex(&b.1), o.0, hex(&o.1));
            ensure!(orig == p, "encoding changed the packet {orig:?} into {p:?}");
        }
    }
    Ok(())
}

const LONG: u64 = 2 * 14 * 2;
/// More than a million, and than any counter of 16 bits can tell apart.
const TIMES: u32 = 1_100_000;

/// The same read or write, over and over.
fn long_repetition(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(LONG);
    let ver = if i & 1 == 0 { V4 } else { V5 };
    let ty = 1 + (i / 4) as u8;
    let mut m = super::roundtrip::minimal(ty);
    if let M::Publish { payload, .. } = &mut m {
        *payload = vec![1, 2, 3];
    }
    over_and_over(c, &m, ver, i & 2 == 0, TIMES)
}

fn long_any(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let mut m = gen::model(s, ver);
    let mut tries = 0;
    while encode_frame(&m, ver, 1).len() > 300 && tries < 50 {
        m = gen::model(s, ver);
        tries += 1;
    }
    if tries == 50 {
        return Ok(());
    }
    let n = s.range(66_000, 200_000) as u32;
    over_and_over(c, &m, ver, s.flag(), n)
}

fn over_and_over(c: &mut Ctx, m: &M, ver: Ver, reading: bool, times: u32) -> R {
    let f = encode_frame(m, ver, 1);
    c.subject(&f);
    c.label(TYPE_NAMES[m.ty() as usize]);
    c.note(|| format!("{} {} {m:?}, {times} times", vname(ver), if reading { "decode" } else { "encode" }));
    if reading {
        let first = read_frame(&f, ver)?;
        c.nontrivial = first.is_ok();
        let mut st = BytesMut::with_capacity(f.len());
        for k in 0..times {
            st.clear();
            st.extend_from_slice(&f);
            let r = read(&mut st, usize::MAX, ver)?;
            ensure!(r == first, "{} {} decoded as {first:?} first and as {r:?} after {k} reads", vname(ver), hex(&f));
        }
    } else {
        let p = to_crate(m, ver, true);
        let first = written(&p)?;
        c.nontrivial = first.0.is_ok();
        let mut o = BytesMut::new();
        for k in 0..times {
            o.clear();
            let n = p.write(&mut o)?;
            ensure!(
                n == first.0 && o[..] == first.1[..],
                "{p:?} encoded as {:?} {} first and as {n:?} {} after {k} writes",
                first.0,
                hex(&first.1),
                hex(&o)
            );
        }
    }
    Ok(())
}

/// A call of another kind, its result of no interest.
fn noise(s: &mut Src) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    match s.weighted(&[4, 3, 3, 2, 2, 2]) {
        0 => {
            // a read that fails or asks for more
            let (mut f, _) = gen::any_frame(s, ver);
            let n = s.below(f.len() as u64) as usize;
            let max = if s.flag() { usize::MAX } else { s.below(8) as usize };
            f.truncate(n);
            let _ = read(&mut BytesMut::from(&f[..]), max, ver)?;
        }
        1 => {
            // a write that fails for its last field
            let (_, m, ..) = super::encode::spoiled(s, ver);
            let _ = to_crate(&m, ver, true).write(&mut BytesMut::new())?;
        }
        2 => {
            let mut m = gen::model_of(s, ver, PUBLISH);
            if let M::Publish { pkid, qos, .. } = &mut m {
                *qos = 1;
                *pkid = 0;
            }
            let _ = to_crate(&m, ver, true).write(&mut BytesMut::new())?;
        }
        3 => {
            let (f, _) = gen::any_frame(s, ver);
            let _ = read_per_packet(&f, ver)?;
        }
        4 => {
            let (t, f) = (gen::topic(s), gen::filter(s));
            call("topics", || {
                let _ = (mqttbytes::matches(&t, &f), mqttbytes::valid_filter(&f), mqttbytes::has_wildcards(&t));
            })?;
        }
        _ => {
            let p = to_crate(&gen::model(s, ver), ver, true);
            let _ = call("Debug", || format!("{p:?}"))?;
        }
    }
    Ok(())
}

/// Packets that share identifiers, aliases, names and properties, in several orders. What each gives alone,
/// in a thread of its own, it has to give after any of the others.
fn related(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.chance(4, 5) { V5 } else { V4 };
    let mut ms = vec![];
    for _ in 0..s.range(1, 2) {
        let mut m = if s.chance(1, 3) { gen::model_of(s, ver, PUBLISH) } else { gen::model(s, ver) };
        if let (M::Publish { props, .. }, V5, true) = (&mut m, ver, s.chance(2, 3)) {
            if !props.iter().any(|p| p.0 == 35) {
                let v = PVal::U16(gen::num16(s));
                props.push((35, v));
            }
        }
        for _ in 0..s.range(1, 5) {
            let o = gen::sibling(s, &m, ver);
            ms.push(o);
        }
        ms.push(m);
    }
    let mut items: Vec<(Vec<u8>, Option<P>)> = vec![];
    for m in &ms {
        let f = encode_frame(m, ver, 1);
        c.subject(&f);
        c.note(|| format!("{} {}", vname(ver), hex(&f)));
        // as a packet to write too, where the crate's packets can say it
        let p = match m.clone().canon(ver) {
            k if k == *m => Some(to_crate(m, ver, true)),
            _ => None,
        };
        if p.is_some() && s.chance(1, 3) {
            let mut o = m.clone();
            gen::free(s, &mut o, ver);
            items.push((f.clone(), Some(to_crate(&o, ver, true))));
        }
        items.push((f, p));
    }
    if s.chance(1, 8) {
        // and a packet which cannot be written, next to the one it was made from
        let (good, bad, ..) = super::encode::spoiled(s, ver);
        for m in [good.clone(), bad] {
            items.push((encode_frame(&good, ver, 1), Some(to_crate(&m, ver, true))));
        }
    }
    type Seen = (Result<P, Error>, Option<(Result<usize, Error>, Vec<u8>)>);
    let look = |(f, p): &(Vec<u8>, Option<P>)| -> Result<Seen, Fail> {
        let r = read_frame(f, ver)?;
        let w = match p {
            None => None,
            Some(p) => {
                Some(written(p)?)
            }
        };
        Ok((r, w))
    };
    let alone: Vec<Seen> = if s.chance(1, 24) {
        let items = &items;
        std::thread::scope(|t| {
            items
                .iter()
                .map(|i| match t.spawn(move || look(i)).join() {
                    Ok(r) => r,
                    Err(_) => fail("a thread ended by a panic"),
                })
                .collect::<Result<_, _>>()
        })?
    } else {
        items.iter().map(look).collect::<Result<_, _>>()?
    };
    c.nontrivial = alone.iter().filter(|a| a.0.is_ok()).count() >= 2;
    for _ in 0..s.range(2, 20) {
        let k = s.below(items.len() as u64) as usize;
        let now = look(&items[k])?;
        ensure!(
            now.0 == alone[k].0,
            "{} {} decoded as {:?} alone and as {:?} after others",
            vname(ver),
            hex(&items[k].0),
            alone[k].0,
            now.0
        );
        ensure!(now.1 == alone[k].1, "{:?} encoded as {:?} alone and as {:?} after others", items[k].1, alone[k].1, now.1);
    }
    Ok(())
}

/// What several threads read and write at the same time is what each gives alone.
fn at_once(s: &mut Src, c: &mut Ctx) -> R {
    let mut items: Vec<(Ver, Vec<u8>, P)> = vec![];
    for _ in 0..6 {
        let ver = if s.flag() { V5 } else { V4 };
        let mut m = if s.chance(1, 3) { super::roundtrip::large(s, ver) } else { gen::model(s, ver) };
        let mut f = encode_frame(&m, ver, 1);
        if f.len() > 250_000 {
            m = super::roundtrip::fullest(m.ty(), ver);
            f = encode_frame(&m, ver, 1);
        }
        c.subject(&f);
        items.push((ver, f, to_crate(&m, ver, true)));
    }
    c.note(|| items.iter().map(|i| format!("{} {}", vname(i.0), hex(&i.1))).collect::<Vec<_>>().join(", "));
    c.nontrivial = true;
    let total: usize = items.iter().map(|i| i.1.len()).sum();
    let rounds = (4_000_000 / (total + 2_000)).clamp(4, 400);
    let look = |(ver, f, p): &(Ver, Vec<u8>, P)| -> Result<_, Fail> { Ok((read_frame(f, *ver)?, written(p)?)) };
    let alone = items.iter().map(look).collect::<Result<Vec<_>, _>>()?;
    let start = std::sync::Barrier::new(6);
    let rs: Vec<R> = std::thread::scope(|t| {
        let hs: Vec<_> = (0..6usize)
            .map(|k| {
                let (start, items, alone) = (&start, &items, &alone);
                t.spawn(move || {
                    start.wait();
                    for i in 0..rounds * items.len() {
                        // half of the threads stay with one packet
                        let n = if k % 2 == 0 { k } else { (i + k) % items.len() };
                        let now = look(&items[n])?;
                        ensure!(
                            now == alone[n],
                            "with other threads at work, {} and {:?} give {now:?}, alone {:?}", hex(&items[n].1), items[n].2, alone[n]
                        );
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("a thread ended by a panic"))).collect()
    });
    rs.into_iter().collect::<Result<Vec<()>, Fail>>().map(|_| ())
}

/// What was read, written and matched last comes out the same when nothing happened for a second or longer.
fn pause(s: &mut Src, c: &mut Ctx) -> R {
    let mut items: Vec<(Ver, Vec<u8>, P)> = vec![];
    for ver in [V4, V5] {
        for ty in [PUBLISH, SUBSCRIBE, CONNECT, s.range(2, 14) as u8] {
            let m = if s.flag() { gen::model_of(s, ver, ty) } else { super::roundtrip::fullest(ty, ver) };
            items.push((ver, encode_frame(&m, ver, 1), to_crate(&m, ver, true)));
        }
    }
    let t = loop {
        let t = gen::topic(s);
        if !t.is_empty() {
            break t;
        }
    };
    let g = format!("{}/+", t.split('/').next().unwrap().replace(['+', '#'], "a"));
    for i in &items {
        c.subject(&i.1);
    }
    let which = s.below(items.len() as u64) as usize;
    let first = s.below(3);
    items.rotate_left(which);
    let millis = if c.thorough { *s.pick(&[1_100, 2_300, 5_500, 11_000]) } else { 1_100 };
    c.note(|| format!("{millis} ms, then again {}", items.iter().map(|i| format!("{} {}", vname(i.0), hex(&i.1))).collect::<Vec<_>>().join(", ")));
    c.nontrivial = true;
    let topics = || call("topics", || {
        let (t, g) = (&t[..], &g[..]);
        (mqttbytes::matches(t, g), mqttbytes::matches(t, t), mqttbytes::valid_filter(g), mqttbytes::valid_topic(t), mqttbytes::has_wildcards(g))
    });
    let mut seen = vec![];
    for turn in 0..4 {
        // the item that comes last before the pause comes first after it
        let mut now = vec![];
        let mut look = |k: usize| -> R {
            let (ver, f, p) = &items[k];
            if first == 0 {
                now.push((k, Some(read_frame(f, *ver)?), None));
                now.push((k, None, Some(written(p)?)));
            } else {
                now.push((k, None, Some(written(p)?)));
                now.push((k, Some(read_frame(f, *ver)?), None));
            }
            Ok(())
        };
        let order: Vec<usize> = if turn % 2 == 0 { (0..items.len()).rev().collect() } else { (0..items.len()).collect() };
        let early = if first == 2 && turn % 2 == 1 { Some(topics()?) } else { None };
        for k in order {
            look(k)?;
        }
        let m = match early {
            Some(m) => m,
            None => topics()?,
        };
        if first == 0 && turn % 2 == 0 {
            // the very last thing before the pause
            let _ = read_frame(&items[0].1, items[0].0)?;
        }
        now.sort_by_key(|x| (x.0, x.1.is_some()));
        seen.push((now, m));
        if turn == 0 || turn == 2 && c.thorough {
            std::thread::sleep(std::time::Duration::from_millis(millis));
        } else if turn == 1 && !c.thorough {
            break;
        }
    }
    for l in &seen[1..] {
        for (a, b) in seen[0].0.iter().zip(&l.0) {
            ensure!(a == b, "{} and {:?} give {b:?} after {millis} ms and {a:?} before", hex(&items[a.0].1), items[a.0].2);
        }
        ensure!(l.1 == seen[0].1, "topic {t:?} and filter {g:?}: {:?} after {millis} ms and {:?} before", l.1, seen[0].1);
    }
    Ok(())
}

fn alias(s: &mut Src, c: &mut Ctx) -> R {
    let ver = if s.flag() { V5 } else { V4 };
    let n = s.range(1, 4);
    let mut st = BytesMut::with_capacity(s.below(600) as usize);
    let mut all = vec![];
    for _ in 0..n {
        let (m, f) = gen::valid_frame(s, ver);
        c.label(TYPE_NAMES[m.ty() as usize]);
        st.extend_from_slice(&f);
        c.subject(&f);
        all.push(m);
    }
    c.note(|| format!("{} {}", vname(ver), hex(&st)));
    let mut held: Vec<(P, M)> = vec![];
    let verify = |held: &Vec<(P, M)>, when: &str| -> R {
        for (p, m) in held {
            same(&format!("a packet decoded earlier, {when}"), &p.model(), m)?;
        }
        Ok(())
    };
    let mut out = BytesMut::new();
    let mut frozen: Vec<(bytes::Bytes, Vec<u8>)> = vec![];
    for m in &all {
        let want = m.clone().canon(ver);
        match read(&mut st, usize::MAX, ver)? {
            Ok(p) => {
                same("decoding", &p.model(), &want)?;
                c.nontrivial |= want.ty() != PINGREQ && want.ty() != PINGRESP;
                let at = out.len();
                let _ = p.write(&mut out)?;
                if s.flag() {
                    let b = out.split().freeze();
                    let copy = b.to_vec();
                    frozen.push((b, copy));
                } else {
                    ensure!(out.len() > at, "nothing written");
                }
                held.push((p, want));
            }
            Err(e) => return fail(format!("{} reader: {e:?} on {m:?}", vname(ver))),
        }
        match s.below(4) {
            0 => {
                // overwrite what is left in place, then put it back
                let left = st.to_vec();
                st.iter_mut().for_each(|b| *b ^= 0xff);
                verify(&held, "after overwriting the rest of the stream")?;
                st.copy_from_slice(&left);
            }
            1 => {
                let left = st.to_vec();
                st.clear();
                st.resize(left.len() + 500, 0xA5);
                verify(&held, "after refilling the stream")?;
                st.clear();
                st.extend_from_slice(&left);
            }
            2 => {
                st.reserve(2000);
                verify(&held, "after growing the stream")?;
            }
            _ => {}
        }
    }
    st.clear();
    st.resize(4000, 0x5A);
    verify(&held, "after refilling the stream")?;
    drop(st);
    verify(&held, "after dropping the stream")?;
    for (b, copy) in &frozen {
        ensure!(b[..] == copy[..], "encoded bytes {} changed to {} after later writes", hex(copy), hex(b));
    }
    Ok(())
}
