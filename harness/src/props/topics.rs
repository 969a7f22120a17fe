//! C15, C16, C17

use super::*;
use crate::gen;
use mqttbytes::{has_wildcards, matches, valid_filter, valid_topic};

/// Strings of up to `max` letters over an alphabet of `k`.
const fn words(k: u64, max: u32) -> u64 {
    let mut n = 0;
    let mut p = 1;
    let mut i = 0;
    while i <= max {
        n += p;
        p *= k;
        i += 1;
    }
    n
}

fn word(mut i: u64, abc: &[&str]) -> String {
    let k = abc.len() as u64;
    let mut len = 0u32;
    let mut p = 1;
    while i >= p {
        i -= p;
        p *= k;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(abc[(i % k) as usize]);
        i /= k;
    }
    s
}

const T_ABC: [&str; 5] = ["a", "/", "b", "$", "é"];
const F_ABC: [&str; 6] = ["a", "/", "+", "#", "b", "é"];
const V_ABC: [&str; 6] = ["a", "/", "+", "#", "$", "é"];

const T4: u64 = words(5, 5);
const V7: u64 = words(6, 7);
const F4: u64 = words(4, 4);

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "all non-empty topics of up to 5 letters over {a,/,b,$,é} against all legal filters of up to 4 letters over {a,/,+,#,b,é}; random level lists, the filter derived from the topic by level edits; topics and filters of up to 130,000 levels and 800,000 bytes; the same pair up to 300,000 times; non-trivial: both have two levels or a wildcard is present; distinct by the pair",
            parts: vec![
                Part::all("small topics, all small filters", T4, small_match),
                Part::random("levels", 24_000_000, 240_000_000, derived_match),
                Part::random("arbitrary text", 4_800_000, 48_000_000, text_match),
                Part::random("long text", 3_000, 60_000, long_match),
                Part::random("over and over", 64, 1_280, |s, c| {
                    let (t, f) = (gen::topic(s), gen::filter(s));
                    let (u, g) = (topic_levels(s).join("/"), any_filter(s));
                    if t.is_empty() || u.is_empty() || !legal_filter(&f) {
                        return Ok(());
                    }
                    c.subject(format!("{t}\0{f}\0{u}\0{g}").as_bytes());
                    c.nontrivial = true;
                    let n = repeats(s.range(66_000, 300_000), t.len() + f.len() + u.len() + g.len());
                    c.note(|| format!("matches({t:?}, {f:?}) {n} times, then matches({u:?}, {g:?}) as often, then in turns"));
                    let ask = [(&t, &f, ref_matches(&t, &f)), (&u, &g, ref_matches(&u, &g))];
                    for i in 0..3 * n {
                        let (t, f, w) = ask[if i < 2 * n { i / n } else { i % 2 } as usize];
                        let r = do_match(t, f)?;
                        ensure!(r == w, "matches({t:?}, {f:?}) is {r} after {i} other calls, the wildcard rules say {w}");
                    }
                    Ok(())
                }),
            ],
        },
        Prop {
            id: "C16",
            rule: "all strings of up to 7 letters over {a,/,+,#,$,é}; random strings; strings of up to 130,000 levels and 800,000 bytes; the same strings up to 200,000 times; non-trivial: contains a wildcard; distinct by the string",
            parts: vec![
                Part::all("small strings", V7, |s, c| {
                    let w = word(s.below(V7), &V_ABC);
                    validity(&w, c)
                }),
                Part::random("levels", 18_000_000, 180_000_000, |s, c| {
                    let w = levels(s, true);
                    validity(&w, c)
                }),
                Part::random("arbitrary text", 5_400_000, 54_000_000, |s, c| {
                    let mut w = gen::text(s);
                    for _ in 0..s.below(3) {
                        let mut at = s.below(w.len() as u64 + 1) as usize;
                        while !w.is_char_boundary(at) {
                            at -= 1;
                        }
                        let t = *s.pick(&["#", "+", "/", "/#", "/+/", "+/", "\0", ""]);
                        if t.is_empty() {
                            w.insert(at, gen::ch(s));
                        } else {
                            w.insert_str(at, t);
                        }
                    }
                    validity(&w, c)
                }),
                Part::random("long text", 3_000, 60_000, |s, c| {
                    let mut w = long_levels(s).join("/");
                    for _ in 0..s.below(3) {
                        let mut at = match s.below(4) {
                            0 => w.len(),
                            1 => w.len().saturating_sub(s.below(4) as usize),
                            _ => s.below(w.len() as u64 + 1) as usize,
                        };
                        while !w.is_char_boundary(at) {
                            at -= 1;
                        }
                        w.insert_str(at, *s.pick(&["#", "+", "/", "/#", "/+/", "+/"]));
                    }
                    validity(&w, c)
                }),
                Part::random("over and over", 24, 480, |s, c| {
                    let w = [levels(s, true), levels(s, false)];
                    c.subject(w.join("\0").as_bytes());
                    c.nontrivial = true;
                    let n = repeats(s.range(66_000, 200_000), w[0].len() + w[1].len());
                    c.note(|| format!("{:?} {n} times, then {:?} as often, then in turns", w[0], w[1]));
                    for i in 0..3 * n {
                        let w = &w[if i < 2 * n { i / n } else { i % 2 } as usize];
                        validity(w, c)?;
                    }
                    Ok(())
                }),
            ],
        },
        Prop {
            id: "C17",
            rule: "all pairs of legal filters of up to 4 letters over {a,/,+,#} against all topics of up to 4 letters over {a,b,/,é} and their transitivity with all such filters (random third); random filter pairs by level edits with topics derived from the first; non-trivial: the first filter is covered by the second and they differ; distinct by the tuple",
            parts: vec![
                Part::all("small pairs", F4 * F4, small_cover),
                Part::random("pairs with derived topics", 8_400_000, 84_000_000, derived_cover),
                Part::random("chains", 8_400_000, 84_000_000, chains),
            ],
        },
    ]
}

fn do_match(t: &str, f: &str) -> Result<bool, Fail> {
    call("matches", || matches(t, f))
}

fn check_match(t: &str, f: &str) -> Result<bool, Fail> {
    let r = do_match(t, f)?;
    let w = ref_matches(t, f);
    if r != w {
        return fail(format!("matches({t:?}, {f:?}) is {r}, the wildcard rules say {w}"));
    }
    // the same two strings where they lie in one allocation: side by side, or over one another
    thread_local!(static ROOM: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
    ROOM.with_borrow_mut(|b| {
        b.clear();
        b.push_str(t);
        b.push_str(f);
        let (x, y) = b.split_at(t.len());
        let r = do_match(x, y)?;
        ensure!(r == w, "matches({t:?}, {f:?}) is {r} where the filter directly follows the topic in memory, the wildcard rules say {w}");
        if let Some(at) = t.find(f) {
            let r = do_match(t, &t[at..at + f.len()])?;
            ensure!(r == w, "matches({t:?}, {f:?}) is {r} where the filter is a part of the topic's own memory, the wildcard rules say {w}");
        } else if let Some(at) = f.find(t) {
            let r = do_match(&f[at..at + t.len()], f)?;
            ensure!(r == w, "matches({t:?}, {f:?}) is {r} where the topic is a part of the filter's own memory, the wildcard rules say {w}");
        }
        Ok(())
    })?;
    Ok(r)
}

fn small_filters(k: u32) -> &'static Vec<String> {
    use std::sync::OnceLock;
    static F: [OnceLock<Vec<String>>; 2] = [const { OnceLock::new() }; 2];
    F[(k == 4) as usize].get_or_init(|| {
        (0..words(6, 4)).map(|i| word(i, &F_ABC)).filter(|f| legal_filter(f)).collect()
    })
}

fn small_match(s: &mut Src, c: &mut Ctx) -> R {
    let t = word(s.below(T4), &T_ABC);
    c.subject(t.as_bytes());
    c.note(|| format!("topic {t:?} against every small filter"));
    if t.is_empty() {
        return Ok(());
    }
    c.nontrivial = true;
    for f in small_filters(4) {
        check_match(&t, f)?;
    }
    Ok(())
}

/// '/'-joined levels; with `bad`, wildcards may be misplaced
/// Long texts less often.
fn repeats(n: u64, len: usize) -> u64 {
    n.min(40_000_000 / (len as u64 + 1)).max(2)
}

fn levels(s: &mut Src, bad: bool) -> String {
    let n = if s.chance(1, 60) { s.range(7, 300) } else { s.range(1, 6) };
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let l = match s.weighted(if bad { &[6, 3, 2, 2, 2] } else { &[6, 0, 0, 0, 0] }) {
            0 => s.pick(&["a", "", "b", "sport", "é", "日本", "😀", "a ", "$SYS", "0", "į", "ī", "ģ"]).to_string(),
            1 => "+".into(),
            2 if i + 1 == n || s.chance(1, 4) => "#".into(),
            2 => "a".into(),
            3 => {
                let (x, y) = (gen::ch(s).to_string(), gen::ch(s).to_string());
                let a = *s.pick(&["", "a", "é", "+", "#", &x]);
                let b = *s.pick(&["", "a", "é", "+", "#", &y]);
                let w = *s.pick(&["+", "#"]);
                format!("{a}{w}{b}")
            }
            _ => gen::text(s).replace(['+', '#', '/'], ""),
        };
        v.push(l);
    }
    v.join("/")
}

fn topic_levels(s: &mut Src) -> Vec<String> {
    let mut n = s.weighted(&[4, 4, 4, 3, 2, 1]) as u64 + 1;
    if s.chance(1, 60) {
        n = s.range(7, 300);
    }
    (0..n)
        .map(|i| {
            if s.chance(1, 12) {
                gen::text(s).replace(['+', '#', '/'], "")
            } else if i == 0 && s.chance(1, 12) {
                "$SYS".into()
            } else {
                s.pick(&["a", "", "b", "sport", "é", "éa", "日本", "😀x", "ab", " ", "a$", "$", "į", "ī", "ģ"]).to_string()
            }
        })
        .collect()
}

/// A legal filter made from topic levels by a few edits.
fn edited_filter(s: &mut Src, t: &[String]) -> String {
    let mut f: Vec<String> = t.to_vec();
    for _ in 0..s.below(4) {
        let n = f.len() as u64;
        match s.weighted(&[5, 3, 2, 2, 2, 1]) {
            0 => {
                let i = s.below(n) as usize;
                if f[i] != "#" {
                    f[i] = "+".into();
                }
            }
            1 => {
                let k = s.below(n + 1) as usize;
                f.truncate(k);
                f.push("#".into());
            }
            2 => {
                if n > 1 {
                    let i = s.below(n) as usize;
                    f.remove(i);
                }
            }
            3 => {
                let i = s.below(n + 1) as usize;
                f.insert(i, s.pick(&["", "a", "+", "b"]).to_string());
            }
            4 => {
                let i = s.below(n) as usize;
                // a near miss of what is there, or something else
                let l: Vec<char> = f[i].chars().collect();
                let k = s.below(l.len() as u64 + 1) as usize;
                let (a, z): (String, String) = (l[..k].iter().collect(), l[k..].iter().collect());
                f[i] = match s.below(8) {
                    0 => s.pick(&["", "a", "é", "A", "sport ", "e"]).to_string(),
                    1 => a,
                    2 => z,
                    3 if s.flag() => format!("{a}{}{z}", gen::ch(s)),
                    3 => format!("{a}{}{z}", s.pick(&["a", " ", "é", "\u{301}", "+", "#", "$"])),
                    4 => f[i].to_uppercase(),
                    5 => f[i].chars().rev().collect(),
                    6 => format!("{}{}", f[i], f[i]),
                    _ => {
                        let mut z = z.chars();
                        let m = z.next();
                        let m = m.and_then(|c| char::from_u32(c as u32 ^ (1 << s.below(9)))).filter(|c| *c != '/' && *c != '\0');
                        format!("{a}{}{}", m.map(String::from).unwrap_or_default(), z.as_str())
                    }
                };
            }
            _ => f.push("".into()),
        }
    }
    // '#' only at the end
    if let Some(i) = f.iter().position(|l| l == "#") {
        f.truncate(i + 1);
    }
    let r = f.join("/");
    if legal_filter(&r) {
        r
    } else {
        "#".into()
    }
}

/// Very many levels, or very long ones.
fn long_levels(s: &mut Src) -> Vec<String> {
    const N: [u64; 9] = [1, 2, 3, 255, 1_000, 32_768, 65_535, 100_000, 131_071];
    let n = (*s.pick(&N) + s.below(4)) as usize;
    let size = |s: &mut Src| match s.below(4) {
        0 => s.below(4),
        1 => s.range(250, 260),
        2 => s.range(65_530, 65_540),
        _ => s.below(200_000),
    } as usize;
    let fill = *s.pick(&["a", "é", "€", "😀", "ab", " "]);
    let mut v: Vec<String> = if n < 10 { vec![] } else { (0..n).map(|i| fill.repeat(i % 3)).collect() };
    while v.len() < n {
        let k = size(s);
        v.push(fill.repeat(k / fill.len()));
    }
    if n >= 10 {
        let i = s.below(n as u64) as usize;
        v[i] = "x".repeat(size(s));
    }
    v
}

fn long_match(s: &mut Src, c: &mut Ctx) -> R {
    let t = long_levels(s);
    let mut f = t.clone();
    for _ in 0..s.below(4) {
        let n = f.len() as u64;
        let i = if s.flag() { s.below(n) } else { n - 1 - s.below(n.min(3)) } as usize;
        match s.below(7) {
            0 => f[i] = "+".into(),
            1 => {
                f.truncate(i);
                f.push("#".into());
            }
            2 => f.push(s.pick(&["", "a", "+", "#"]).to_string()),
            3 if n > 1 => {
                f.pop();
            }
            4 => (0..n as usize).for_each(|i| f[i] = "+".into()),
            5 => {
                f[i].pop();
            }
            _ => {
                // one letter of one level
                let mut at = s.below(f[i].len() as u64 + 1) as usize;
                while !f[i].is_char_boundary(at) {
                    at -= 1;
                }
                if let Some(x) = f[i][at..].chars().next() {
                    f[i].replace_range(at..at + x.len_utf8(), if s.flag() { "b" } else { "" });
                }
            }
        }
    }
    if let Some(i) = f.iter().position(|l| l == "#") {
        f.truncate(i + 1);
    }
    let (t, f) = (t.join("/"), f.join("/"));
    if t.is_empty() || !legal_filter(&f) {
        return Ok(());
    }
    c.subject(t.as_bytes());
    c.subject(f.as_bytes());
    c.nontrivial = true;
    c.note(|| clip(format!("a topic of {} bytes and a filter of {}: {t:?} {f:?}", t.len(), f.len())));
    let r = check_match(&t, &f)?;
    label_match(r, c);
    Ok(())
}

fn label_match(r: bool, c: &mut Ctx) {
    c.label(if r { "match" } else { "no match" });
}

/// One character, often one that text handling likes to drop, at an end of one level.
fn odd_end(s: &mut Src, levels: &mut [String]) {
    let i = s.below(levels.len() as u64) as usize;
    let x = if s.flag() { gen::ch(s) } else { *s.pick(&['\0', ' ', '\t', '\n', '\r', '\u{b}', '\u{7f}', '\u{85}', '\u{a0}', '\u{feff}', '\u{200b}', '\u{2028}', '.', '*', '\\', '"', '%', '?']) };
    if "+#/".contains(x) || "+#".contains(levels[i].as_str()) && !levels[i].is_empty() {
        return;
    }
    let at = if s.flag() { levels[i].len() } else { 0 };
    for _ in 0..s.range(1, 2) {
        levels[i].insert(at, x);
    }
}

fn derived_match(s: &mut Src, c: &mut Ctx) -> R {
    let mut t = topic_levels(s);
    let mut f = edited_filter(s, &t);
    if s.chance(1, 16) {
        if s.flag() {
            odd_end(s, &mut t);
        } else {
            let mut l: Vec<String> = f.split('/').map(String::from).collect();
            odd_end(s, &mut l);
            f = l.join("/");
        }
    }
    let t = t.join("/");
    if s.chance(1, 32) {
        // the topic itself, or its first levels, as the filter
        f = match t.match_indices('/').nth(s.below(4) as usize) {
            Some((at, _)) if s.flag() => t[..at].into(),
            _ => t.clone(),
        };
    }
    if t.is_empty() || !legal_filter(&f) {
        return Ok(());
    }
    c.subject(format!("{t}\0{f}").as_bytes());
    c.nontrivial = f.contains(['+', '#']) || t.contains('/');
    c.note(|| format!("matches({t:?}, {f:?})"));
    let r = check_match(&t, &f)?;
    label_match(r, c);
    Ok(())
}

fn text_match(s: &mut Src, c: &mut Ctx) -> R {
    let t = gen::topic(s);
    let f = if s.flag() { gen::filter(s) } else { edited_filter(s, &t.split('/').map(String::from).collect::<Vec<_>>()) };
    c.subject(format!("{t}\0{f}").as_bytes());
    c.nontrivial = f.contains(['+', '#']) || t.contains('/');
    c.note(|| format!("matches({t:?}, {f:?})"));
    let r = check_match(&t, &f)?;
    label_match(r, c);
    Ok(())
}

fn validity(w: &str, c: &mut Ctx) -> R {
    c.subject(w.as_bytes());
    c.nontrivial = w.contains(['+', '#']);
    c.note(|| format!("{w:?}"));
    let f = call("valid_filter", || valid_filter(w))?;
    c.label(if f { "legal filter" } else { "not a filter" });
    ensure!(f == legal_filter(w), "valid_filter({w:?}) is {f}, the rules say {}", legal_filter(w));
    let h = call("has_wildcards", || has_wildcards(w))?;
    ensure!(h == w.contains(['+', '#']), "has_wildcards({w:?}) is {h}");
    if !w.is_empty() {
        let t = call("valid_topic", || valid_topic(w))?;
        ensure!(t == !w.contains(['+', '#']), "valid_topic({w:?}) is {t}");
    }
    Ok(())
}

const C_ABC: [&str; 4] = ["a", "/", "+", "#"];
const CT_ABC: [&str; 4] = ["a", "/", "b", "é"];

fn self_cover(f: &str) -> R {
    if !f.starts_with('$') {
        ensure!(do_match(f, f)?, "the filter {f:?} does not match itself");
    }
    Ok(())
}

/// A topic that the first filter matches has to be matched by the second.
fn sound(t: &str, f: &str, g: &str) -> R {
    if !t.is_empty() && do_match(t, f)? {
        ensure!(
            do_match(t, g)?,
            "matches({f:?}, {g:?}) holds, but the topic {t:?} is matched by {f:?} and not by {g:?}"
        );
    }
    Ok(())
}

fn small_cover(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(F4 * F4);
    let (f, g) = (word(i % F4, &C_ABC), word(i / F4, &C_ABC));
    if !legal_filter(&f) || !legal_filter(&g) {
        return Ok(());
    }
    c.subject(format!("{f}\0{g}").as_bytes());
    c.note(|| format!("is {f:?} covered by {g:?}?"));
    self_cover(&f)?;
    if !do_match(&f, &g)? {
        c.label("not covered");
        return Ok(());
    }
    c.label("covered");
    c.nontrivial = f != g;
    for i in 0..F4 {
        sound(&word(i, &CT_ABC), &f, &g)?;
    }
    for i in 0..F4 {
        let h = word(i, &C_ABC);
        if legal_filter(&h) && do_match(&g, &h)? {
            ensure!(
                do_match(&f, &h)?,
                "{f:?} is covered by {g:?} and that by {h:?}, but {f:?} is not covered by {h:?}"
            );
        }
    }
    Ok(())
}

/// A topic the filter matches by construction (unless it begins with '$').
fn topic_of(s: &mut Src, f: &str) -> String {
    let mut v: Vec<String> = vec![];
    for l in f.split('/') {
        match l {
            "+" => v.push(s.pick(&["a", "", "z", "é", "$q"]).to_string()),
            "#" => {
                for _ in 0..s.below(4) {
                    v.push(s.pick(&["a", "", "z", "日本"]).to_string());
                }
            }
            l => v.push(l.into()),
        }
    }
    v.join("/")
}

fn any_filter(s: &mut Src) -> String {
    let t = topic_levels(s);
    let f = edited_filter(s, &t);
    if legal_filter(&f) {
        f
    } else {
        "a".into()
    }
}

fn widened(s: &mut Src, f: &str) -> String {
    let l: Vec<String> = f.split('/').map(String::from).collect();
    edited_filter(s, &l)
}

fn derived_cover(s: &mut Src, c: &mut Ctx) -> R {
    let f = any_filter(s);
    let g = widened(s, &f);
    c.subject(format!("{f}\0{g}").as_bytes());
    c.note(|| format!("is {f:?} covered by {g:?}?"));
    self_cover(&f)?;
    if do_match(&f, &g)? {
        c.label("covered");
        c.nontrivial = f != g;
        for _ in 0..4 {
            let t = topic_of(s, &f);
            sound(&t, &f, &g)?;
        }
        // the emptiest and the fullest topics
        let t = f.replace("+", "").replace("/#", "");
        if !t.contains('#') {
            sound(&t, &f, &g)?;
        }
        sound(&f.replace(['+', '#'], "q/q").replace("q/q", "q"), &f, &g)?;
    } else {
        c.label("not covered");
    }
    Ok(())
}

fn chains(s: &mut Src, c: &mut Ctx) -> R {
    let f = any_filter(s);
    let g = widened(s, &f);
    let h = widened(s, &g);
    c.subject(format!("{f}\0{g}\0{h}").as_bytes());
    c.note(|| format!("{f:?} < {g:?} < {h:?}?"));
    if do_match(&f, &g)? && do_match(&g, &h)? {
        c.label("chain");
        c.nontrivial = f != g && g != h;
        ensure!(
            do_match(&f, &h)?,
            "{f:?} is covered by {g:?} and that by {h:?}, but {f:?} is not covered by {h:?}"
        );
    }
    Ok(())
}
