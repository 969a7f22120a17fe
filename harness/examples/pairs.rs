//! How well do the generators mix? Every valid packet is described by simple facts about its fields ("client id has 3
//! bytes", "will message ends in a slash", "user property list has a repeated entry"); the pairs of facts about
//! different fields that never meet in a run of about the size of the quick tier are printed.
//!
//! cargo run --release --example pairs [cases per type]

use harness::engine::*;
use harness::gen;
use harness::model::*;
use std::collections::{BTreeMap, BTreeSet};

type Facts = Vec<(String, String)>;

fn text(f: &mut Facts, k: &str, s: &str) {
    let mut p = |x: &str| f.push((k.into(), x.into()));
    match s.len() {
        0..=12 => p(&format!("len {}", s.len())),
        13..=31 => p("len 13-31"),
        32..=64 => p("len 32-64"),
        65..=126 => p("len 65-126"),
        127 | 128 => p("len 127 or 128"),
        129..=254 => p("len 129-254"),
        255 | 256 => p("len 255 or 256"),
        257..=16000 => p("len 257-16000"),
        _ => p("len above 16000"),
    }
    for c in ['/', '+', '#', '$', ' ', '\n', '0', 'A', 'a', '\u{feff}', '\u{fffd}', '\u{7f}', '\u{1}', '\u{80}'] {
        if s.contains(c) {
            p(&format!("has {c:?}"));
        }
        if s.starts_with(c) {
            p(&format!("starts with {c:?}"));
        }
        if s.ends_with(c) {
            p(&format!("ends with {c:?}"));
        }
    }
    for n in 2..=4 {
        if s.chars().any(|c| c.len_utf8() == n) {
            p(&format!("has a character of {n} bytes"));
        }
    }
    if s.contains("//") {
        p("has //");
    }
    if s.len() > 3 && s.chars().all(|c| Some(c) == s.chars().next()) {
        p("one character throughout");
    }
    if !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) {
        p("digits");
    }
}

fn bin(f: &mut Facts, k: &str, b: &[u8]) {
    match std::str::from_utf8(b) {
        Ok(s) => text(f, k, s),
        Err(_) => {
            f.push((k.into(), "not UTF-8".into()));
            text(f, k, &"?".repeat(b.len()));
        }
    }
    for (n, x) in [("0x00", 0u8), ("0xff", 255)] {
        if b.first() == Some(&x) {
            f.push((k.into(), format!("starts with {n}")));
        }
        if b.last() == Some(&x) {
            f.push((k.into(), format!("ends with {n}")));
        }
    }
}

fn num(f: &mut Facts, k: &str, n: u64, bits: u32) {
    let mut p = |x: &str| f.push((k.into(), x.into()));
    if n <= 4 {
        p(&format!("is {n}"));
    }
    for b in 0..bits {
        if n >> b & 1 == 1 {
            p(&format!("bit {b}"));
        }
        if n == 1 << b {
            p(&format!("only bit {b}"));
        }
    }
    if n == (1 << bits) - 1 {
        p("all bits");
    }
    if n & 255 == 0 {
        p("low byte 0");
    }
    if bits >= 16 && n >> (bits - 8) == 0 {
        p("high byte 0");
    }
}

fn list(f: &mut Facts, k: &str, keys: &[String]) {
    let n = keys.len();
    let mut p = |x: &str| f.push((k.into(), x.into()));
    match n {
        0..=8 => p(&format!("{n} items")),
        9..=20 => p("9-20 items"),
        21..=200 => p("21-200 items"),
        _ => p("more items"),
    }
    if n > 1 {
        let set: BTreeSet<&String> = keys.iter().collect();
        if set.len() < n {
            p("repeats");
        }
        if keys[0] == keys[n - 1] {
            p("first is last");
        }
        if keys.windows(2).any(|w| w[0] == w[1]) {
            p("neighbours equal");
        }
        if set.len() == 1 {
            p("all equal");
        }
        if keys.windows(2).all(|w| w[0] < w[1]) {
            p("ascending");
        }
        if keys.windows(2).all(|w| w[0] > w[1]) {
            p("descending");
        }
    }
}

fn props(f: &mut Facts, k: &str, ps: &Props) {
    for id in [1u8, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42] {
        let vs: Vec<&PVal> = ps.iter().filter(|p| p.0 == id).map(|p| &p.1).collect();
        let k = format!("{k}{id}");
        if vs.is_empty() {
            f.push((k, "absent".into()));
            continue;
        }
        f.push((k.clone(), "present".into()));
        match vs[0] {
            PVal::U8(n) => num(f, &k, *n as u64, 8),
            PVal::U16(n) => num(f, &k, *n as u64, 16),
            PVal::U32(n) => num(f, &k, *n as u64, 32),
            PVal::Var(n) => {
                num(f, &k, *n as u64, 28);
                list(f, &k, &vs.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>());
            }
            PVal::Str(s) => text(f, &k, s),
            PVal::Bin(b) => bin(f, &k, b),
            PVal::Pair(a, b) => {
                text(f, &(k.clone() + "key"), a);
                text(f, &(k.clone() + "value"), b);
                if a == b {
                    f.push((k.clone(), "key is value".into()));
                }
                list(f, &k, &vs.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>());
                let keys: BTreeSet<String> =
                    vs.iter().filter_map(|v| if let PVal::Pair(a, _) = v { Some(a.clone()) } else { None }).collect();
                if keys.len() < vs.len() {
                    f.push((k, "key repeats".into()));
                }
            }
        }
    }
}

fn facts(m: &M) -> Facts {
    let mut f: Facts = vec![];
    let b = |f: &mut Facts, k: &str, x: bool| f.push((k.into(), x.to_string()));
    match m {
        M::Connect { level, keep_alive, client_id, clean, will, user, pass, props: ps } => {
            b(&mut f, "level 5", *level == 5);
            num(&mut f, "keep alive", *keep_alive as u64, 16);
            text(&mut f, "client id", client_id);
            b(&mut f, "clean", *clean);
            b(&mut f, "will", will.is_some());
            if let Some(w) = will {
                text(&mut f, "will topic", &w.topic);
                bin(&mut f, "will message", &w.msg);
                num(&mut f, "will qos", w.qos as u64, 2);
                b(&mut f, "will retain", w.retain);
                props(&mut f, "will property ", &w.props);
                for (k, s) in [("client id", Some(client_id)), ("user", user.as_ref()), ("password", pass.as_ref())] {
                    b(&mut f, &format!("will topic is {k}"), s == Some(&w.topic));
                    b(&mut f, &format!("will message is {k}"), s.map_or(false, |s| s.as_bytes() == &w.msg[..]));
                }
                b(&mut f, "will topic is message", w.topic.as_bytes() == &w.msg[..]);
            }
            b(&mut f, "user given", user.is_some());
            b(&mut f, "password given", pass.is_some());
            if let Some(u) = user {
                text(&mut f, "user", u);
                b(&mut f, "user is client id", u == client_id);
                b(&mut f, "user is password", pass.as_ref() == Some(u));
            }
            if let Some(p) = pass {
                text(&mut f, "password", p);
                b(&mut f, "password is client id", p == client_id);
            }
            props(&mut f, "property ", ps);
        }
        M::ConnAck { sp, code, props: ps } => {
            b(&mut f, "session present", *sp);
            f.push(("code".into(), code.to_string()));
            props(&mut f, "property ", ps);
        }
        M::Publish { dup, qos, retain, topic, pkid, props: ps, payload } => {
            b(&mut f, "dup", *dup);
            num(&mut f, "qos", *qos as u64, 2);
            b(&mut f, "retain", *retain);
            text(&mut f, "topic", topic);
            num(&mut f, "packet id", *pkid as u64, 16);
            bin(&mut f, "payload", payload);
            b(&mut f, "payload is topic", topic.as_bytes() == &payload[..]);
            props(&mut f, "property ", ps);
        }
        M::Ack { pkid, reason, props: ps, .. } => {
            num(&mut f, "packet id", *pkid as u64, 16);
            f.push(("reason".into(), reason.to_string()));
            props(&mut f, "property ", ps);
        }
        M::Subscribe { pkid, props: ps, filters } => {
            num(&mut f, "packet id", *pkid as u64, 16);
            props(&mut f, "property ", ps);
            list(&mut f, "filters", &filters.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
            list(&mut f, "options", &filters.iter().map(|x| format!("{:03}", x.1)).collect::<Vec<_>>());
            for (i, (x, o)) in filters.iter().enumerate().take(3) {
                text(&mut f, &format!("filter {i}"), x);
                num(&mut f, &format!("option {i}"), *o as u64, 8);
            }
            if filters.len() > 3 {
                let l = filters.last().unwrap();
                text(&mut f, "last filter", &l.0);
                num(&mut f, "last option", l.1 as u64, 8);
            }
        }
        M::Unsubscribe { pkid, props: ps, filters } => {
            num(&mut f, "packet id", *pkid as u64, 16);
            props(&mut f, "property ", ps);
            list(&mut f, "filters", filters);
            for (i, x) in filters.iter().enumerate().take(3) {
                text(&mut f, &format!("filter {i}"), x);
            }
            if filters.len() > 3 {
                text(&mut f, "last filter", filters.last().unwrap());
            }
        }
        M::SubAck { pkid, props: ps, codes } | M::UnsubAck { pkid, props: ps, codes } => {
            num(&mut f, "packet id", *pkid as u64, 16);
            props(&mut f, "property ", ps);
            list(&mut f, "codes", &codes.iter().map(|x| format!("{x:03}")).collect::<Vec<_>>());
            for (i, c) in codes.iter().enumerate().take(3) {
                f.push((format!("code {i}"), c.to_string()));
            }
            if codes.len() > 3 {
                f.push(("last code".into(), codes.last().unwrap().to_string()));
            }
        }
        M::PingReq | M::PingResp => {}
        M::Disconnect { reason, props: ps } => {
            f.push(("reason".into(), reason.to_string()));
            props(&mut f, "property ", ps);
        }
    }
    f
}

fn main() {
    let n: u64 = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(800_000);
    for ver in [V4, V5] {
        for ty in 1..=14u8 {
            if ty == 12 || ty == 13 {
                continue;
            }
            let threads = 8;
            let parts: Vec<(BTreeMap<(String, String), u32>, Vec<(String, String)>, Vec<u32>)> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        s.spawn(move || {
                            let mut ids: BTreeMap<(String, String), u32> = BTreeMap::new();
                            let mut names = vec![];
                            const W: usize = 4096;
                            let mut c = vec![0u32; W * W];
                            for i in 0..n / threads {
                                let mut src = Src::random(case_seed(1, "pairs", "pairs", (i * threads + t) << 8 | ty as u64));
                                let m = gen::model_of(&mut src, ver, ty);
                                let mut v: Vec<u32> = facts(&m)
                                    .into_iter()
                                    .map(|f| {
                                        let k = names.len() as u32;
                                        *ids.entry(f.clone()).or_insert_with(|| {
                                            names.push(f);
                                            k
                                        })
                                    })
                                    .collect();
                                v.sort();
                                v.dedup();
                                for (x, a) in v.iter().enumerate() {
                                    for b in &v[x..] {
                                        c[*a as usize * W + *b as usize] += 1;
                                    }
                                }
                            }
                            let k = names.len();
                            let mut d = vec![0u32; k * k];
                            for a in 0..k {
                                for b in 0..k {
                                    d[a * k + b] = c[a * W + b];
                                }
                            }
                            (ids, names, d)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let all: BTreeSet<(String, String)> = parts.iter().flat_map(|p| p.1.iter().cloned()).collect();
            let all: Vec<_> = all.into_iter().collect();
            let at = |a: &(String, String), b: &(String, String)| -> u64 {
                parts
                    .iter()
                    .map(|p| match (p.0.get(a), p.0.get(b)) {
                        (Some(x), Some(y)) => {
                            let (x, y) = ((*x).min(*y) as usize, (*x).max(*y) as usize);
                            p.2[x * p.1.len() + y] as u64
                        }
                        _ => 0,
                    })
                    .sum()
            };
            let (mut pairs, mut missing, mut rare) = (0u64, 0u64, 0u64);
            let mut miss: BTreeMap<String, u64> = BTreeMap::new();
            for (i, a) in all.iter().enumerate() {
                for b in &all[i + 1..] {
                    if a.0 == b.0 {
                        continue;
                    }
                    pairs += 1;
                    match at(a, b) {
                        0 => {
                            missing += 1;
                            *miss.entry(format!("{} {}", a.0, a.1)).or_insert(0) += 1;
                            *miss.entry(format!("{} {}", b.0, b.1)).or_insert(0) += 1;
                        }
                        1..=4 => rare += 1,
                        _ => {}
                    }
                }
            }
            println!("{ver:?} {}: {} facts, {pairs} pairs, {missing} never met, {rare} fewer than 5 times", TYPE_NAMES[ty as usize], all.len());
            let mut miss: Vec<_> = miss.into_iter().map(|(k, v)| (v, k)).collect();
            miss.sort();
            miss.reverse();
            for (v, k) in miss.into_iter().take(25) {
                println!("    {v:6} with {k}");
            }
        }
    }
}
