//! Numbers and strings which occur in the source of the crate under test. They only steer generation: values the
//! code mentions are values at which it may behave differently. What is right is decided without them.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub words: Vec<String>,
    /// byte strings and lists of bytes
    pub blobs: Vec<Vec<u8>>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let src = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo/src");
        let (mut nums, mut words) = (BTreeSet::new(), BTreeSet::new());
        let mut blobs = BTreeSet::new();
        walk(&src, &mut |s| {
            scan(s, &mut nums, &mut words);
            combined(s, &mut nums, &mut blobs);
        });
        for b in &blobs {
            if let Ok(w) = std::str::from_utf8(b) {
                words.insert(w.replace('\0', ""));
            }
        }
        words.remove("");
        // what everything is near to anyway
        let nums: Vec<u64> = nums.into_iter().filter(|n| *n > 2).collect();
        let mut words: Vec<String> = words.into_iter().collect();
        if words.is_empty() {
            words.push("MQTT".into());
        }
        let mut blobs: Vec<Vec<u8>> = blobs.into_iter().collect();
        if blobs.is_empty() {
            blobs.push(vec![0x1f, 0x8b]);
        }
        Dict { nums: if nums.is_empty() { vec![3] } else { nums }, words, blobs }
    })
}

fn walk(dir: &Path, f: &mut impl FnMut(&str)) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, f)
        } else if p.extension().map_or(false, |x| x == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                // the tests come last in every file
                let s = s.split("#[cfg(test)]").next().unwrap_or("");
                f(s);
            }
        }
    }
}

fn scan(s: &str, nums: &mut BTreeSet<u64>, words: &mut BTreeSet<String>) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1
                }
            }
            '"' => {
                let mut w = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' && i + 1 < c.len() {
                        i += 1;
                        match c[i] {
                            'n' => w.push('\n'),
                            't' => w.push('\t'),
                            'r' => w.push('\r'),
                            '0' => {}
                            'x' if i + 2 < c.len() => {
                                let h: String = c[i + 1..i + 3].iter().collect();
                                if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                    w.push(x)
                                }
                                i += 2;
                            }
                            'u' if c.get(i + 1) == Some(&'{') => {
                                let h: String = c[i + 2..].iter().take_while(|x| **x != '}').collect();
                                if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                    w.push(x)
                                }
                                i += h.len() + 2;
                            }
                            x => w.push(x),
                        }
                    } else {
                        w.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                w.retain(|x| x != '\0');
                if !w.is_empty() && w.chars().count() <= 48 && !w.contains("{}") && !w.contains("{:?}") {
                    words.insert(w);
                }
            }
            '\'' => {
                // a character, or a lifetime
                if c.get(i + 2) == Some(&'\'') && c[i + 1] != '\\' {
                    words.insert(c[i + 1].to_string());
                    i += 3;
                } else if c.get(i + 1) == Some(&'\\') {
                    let body: String = c[i + 2..].iter().take(12).take_while(|x| **x != '\'').collect();
                    if let Some(h) = body.strip_prefix("u{").and_then(|b| b.strip_suffix('}')) {
                        if let Some(x) = u32::from_str_radix(h, 16).ok().and_then(char::from_u32) {
                            words.insert(x.to_string());
                        }
                    }
                    i += 3 + body.chars().count();
                } else {
                    i += 1;
                }
            }
            d if d.is_ascii_digit() => {
                let mut w = String::new();
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    if c[i] != '_' {
                        w.push(c[i]);
                    }
                    i += 1;
                }
                let (r, mut w) = match w.get(..2) {
                    Some("0x") => (16, w[2..].to_string()),
                    Some("0b") => (2, w[2..].to_string()),
                    Some("0o") => (8, w[2..].to_string()),
                    _ => (10, w),
                };
                for suf in ["usize", "u64", "u32", "u16", "isize", "i64", "i32", "u8"] {
                    if let Some(x) = w.strip_suffix(suf) {
                        w = x.to_string();
                    }
                }
                if let Ok(n) = u64::from_str_radix(&w, r) {
                    nums.insert(n);
                }
            }
            a if a.is_ascii_alphabetic() || a == '_' => {
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1
                }
            }
            _ => i += 1,
        }
    }
}

fn number(w: &str) -> Option<u64> {
    let w = w.replace('_', "");
    let (r, mut w) = match w.get(..2) {
        Some("0x") => (16, &w[2..]),
        Some("0b") => (2, &w[2..]),
        Some("0o") => (8, &w[2..]),
        _ => (10, &w[..]),
    };
    for suf in ["usize", "u64", "u32", "u16", "isize", "i64", "i32", "i16", "u8"] {
        w = w.strip_suffix(suf).unwrap_or(w);
    }
    u64::from_str_radix(w, r).ok()
}

/// Numbers that are computed (`60 * 60`, `1 << 20`, `u16::MAX - 2`), and bytes in a row (`[0xef, 0xbb]`).
fn combined(s: &str, nums: &mut BTreeSet<u64>, blobs: &mut BTreeSet<Vec<u8>>) {
    let mut toks: Vec<String> = vec![];
    for l in s.lines() {
        let l = l.split("//").next().unwrap_or("");
        let mut w = String::new();
        for c in l.chars().chain([' ']) {
            if c.is_ascii_alphanumeric() || c == '_' {
                w.push(c);
                continue;
            }
            if !w.is_empty() {
                toks.push(std::mem::take(&mut w));
            }
            if !c.is_whitespace() {
                toks.push(c.to_string());
            }
        }
    }
    let mut i = 0;
    // (value, tokens it takes)
    let value = |i: usize| -> Option<(u64, usize)> {
        let t = toks.get(i)?;
        if t.starts_with(|c: char| c.is_ascii_digit()) {
            return number(t).map(|n| (n, 1));
        }
        if toks.get(i + 1).map(|x| x == ":") == Some(true) && toks.get(i + 3).map(|x| x == "MAX") == Some(true) {
            let n = match &t[..] {
                "u8" => 0xff,
                "i8" => 0x7f,
                "u16" => 0xffff,
                "i16" => 0x7fff,
                "u32" => 0xffff_ffff,
                "i32" => 0x7fff_ffff,
                _ => return None,
            };
            return Some((n, 4));
        }
        None
    };
    while i < toks.len() {
        if toks[i] == "[" {
            let mut b = vec![];
            let mut j = i + 1;
            while let Some(n) = toks.get(j).and_then(|t| number(t)).filter(|n| *n < 256) {
                b.push(n as u8);
                j += 1;
                if toks.get(j).map(|t| t == ",") != Some(true) {
                    break;
                }
                j += 1;
            }
            if toks.get(j).map(|t| t == "]") == Some(true) && (2..=48).contains(&b.len()) {
                blobs.insert(b);
            }
        }
        let Some((mut v, n)) = value(i) else {
            i += 1;
            continue;
        };
        if n > 1 {
            nums.insert(v);
        }
        i += n;
        loop {
            let op = match toks.get(i).map(|t| &t[..]) {
                Some("<") if toks.get(i + 1).map(|t| t == "<") == Some(true) => "<<",
                Some(o @ ("*" | "+" | "-")) => o,
                _ => break,
            };
            let k = if op == "<<" { 2 } else { 1 };
            let Some((w, n)) = value(i + k) else { break };
            let r = match op {
                "*" => v.checked_mul(w),
                "+" => v.checked_add(w),
                "-" => v.checked_sub(w),
                _ => 1u64.checked_shl(w as u32).filter(|_| w < 64).and_then(|x| v.checked_mul(x)),
            };
            let Some(r) = r else { break };
            v = r;
            nums.insert(v);
            i += k + n;
        }
    }
}

#[cfg(test)]
mod test {
    #[test]
    fn combines() {
        let (mut n, mut b) = (Default::default(), Default::default());
        super::combined("60 * 60 * 24; 1 << 20, u16::MAX - 2 // 7 * 7\nx.starts_with(&[0xef, 0xbb, 1]) [0u8; 4] a[1]", &mut n, &mut b);
        assert_eq!(n.into_iter().collect::<Vec<u64>>(), [3600, 65533, 65535, 86400, 1 << 20].to_vec());
        assert_eq!(b.into_iter().collect::<Vec<_>>(), [vec![0xef, 0xbb, 1]].to_vec());
    }

    #[test]
    fn scans() {
        let (mut n, mut w) = (Default::default(), Default::default());
        super::scan("let a = 0x1f_u8; // 77\n b\"ab\\x41\" + 12_345usize 'c' '\\u{e9}' &'a str x9 0b101 \"\\\"q\"", &mut n, &mut w);
        assert_eq!(n.into_iter().collect::<Vec<u64>>(), [5, 0x1f, 12345].to_vec());
        assert_eq!(w.into_iter().collect::<Vec<_>>(), ["\"q", "abA", "c", "é"].to_vec());
    }
}
