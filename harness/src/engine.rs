//! Choice-sequence property testing engine.
//!
//! Every random decision of a case is one call of `Src::below`, which is recorded. A case is
//! therefore a pure function of the code and of its choice list; shrinking edits the list and
//! re-runs the case; the shrunk list is the replay file. Value 0 is always the simplest choice.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng([splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ (bytes.len() as u64);
    let mut it = bytes.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))
            .wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    for b in it.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

enum Mode<'a> {
    Random(Rng),
    Replay(&'a [u64]),
}

pub struct Src<'a> {
    mode: Mode<'a>,
    pos: usize,
    pub rec: Vec<u64>,
}

const MAX_CHOICES: usize = 200_000;

impl<'a> Src<'a> {
    pub fn random(seed: u64) -> Src<'static> {
        Src { mode: Mode::Random(Rng::new(seed)), pos: 0, rec: Vec::new() }
    }
    pub fn replay(data: &'a [u64]) -> Src<'a> {
        Src { mode: Mode::Replay(data), pos: 0, rec: Vec::new() }
    }

    /// A number in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        if self.rec.len() >= MAX_CHOICES {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let x = r.next();
                ((x as u128 * n as u128) >> 64) as u64
            }
            Mode::Replay(d) => {
                let v = d.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.push(v);
        v
    }
    fn push(&mut self, v: u64) {
        if TRACE.load(Relaxed) {
            eprintln!("choice {v}");
        }
        self.rec.push(v);
    }
    /// A number in 0..n that comes from `from` when it is drawn. What is recorded is the number itself.
    pub fn drawn(&mut self, n: u64, from: impl FnOnce(&mut Rng) -> u64) -> u64 {
        match &mut self.mode {
            Mode::Random(r) if self.rec.len() < MAX_CHOICES => {
                let v = from(r).min(n - 1);
                self.push(v);
                v
            }
            _ => self.below(n),
        }
    }
    /// One of the numbers in the source of the crate, or one off, in lo..=hi.
    pub fn known(&mut self, lo: u64, hi: u64) -> u64 {
        let v = self.drawn(hi - lo + 1, |r| {
            let d = &crate::dict::dict().nums;
            for _ in 0..8 {
                let v = (d[(r.next() % d.len() as u64) as usize] + r.next() % 3).saturating_sub(1);
                if (lo..=hi).contains(&v) {
                    return v - lo;
                }
            }
            r.next() % (hi - lo + 1).min(256)
        });
        lo + v
    }
    /// One of the strings in the source of the crate.
    pub fn word(&mut self) -> String {
        let mut w: Vec<char> = vec![];
        let n = self.drawn(49, |r| {
            let d = &crate::dict::dict().words;
            w = d[(r.next() % d.len() as u64) as usize].chars().collect();
            w.len() as u64
        });
        (0..n as usize)
            .map(|i| {
                let c = self.drawn(0x11_0000, |_| w.get(i).map_or(97, |c| *c as u64));
                char::from_u32(c as u32).filter(|c| *c != '\0').unwrap_or('a')
            })
            .collect()
    }
    /// One of the lists of bytes in the source of the crate.
    pub fn blob(&mut self) -> Vec<u8> {
        let mut w: Vec<u8> = vec![];
        let n = self.drawn(49, |r| {
            let d = &crate::dict::dict().blobs;
            w = d[(r.next() % d.len() as u64) as usize].clone();
            w.len() as u64
        });
        (0..n as usize).map(|i| self.drawn(256, |_| w.get(i).map_or(0, |b| *b as u64)) as u8).collect()
    }
    /// lo..=hi, lo simplest
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    /// A number below 2^bits with few bits set, or one off such a number.
    pub fn near_bit(&mut self, bits: u64) -> u64 {
        let mut v = 1u64 << self.below(bits);
        match self.below(5) {
            0 => {}
            1 => v -= 1,
            2 => v += 1,
            3 => v |= 1 << self.below(bits),
            _ => v = (v << 1).wrapping_sub(1) ^ (1 << self.below(bits)),
        }
        v & ((1 << bits) - 1)
    }
    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// index i with weight w[i]; put the simplest alternative first
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        unreachable!()
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
}

// ---------------------------------------------------------------- cases and failures

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: clip(msg.into()) })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return $crate::engine::fail(format!($($a)*)); } };
}

/// Per-case bookkeeping.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub subject: u64,
    pub want_text: bool,
    pub text: String,
    pub thorough: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    /// Note (part of) the input of this case: it counts for distinctness.
    pub fn subject(&mut self, b: &[u8]) {
        self.subject = self.subject.rotate_left(7).wrapping_mul(31) ^ hash(b);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_text {
            if !self.text.is_empty() {
                self.text.push_str("; ");
            }
            let s = f();
            if TRACE.load(Relaxed) {
                eprintln!("input {}", clip(s.clone()).replace('\n', " "));
            }
            self.text.push_str(&s);
        }
    }
}

/// Say every choice and every note on stderr, for a case that may end the process.
pub static TRACE: AtomicBool = AtomicBool::new(false);

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;

pub struct Part {
    pub name: &'static str,
    /// Some(n): the first choice enumerates 0..n completely. None: random.
    pub enumerate: Option<u64>,
    pub quick: u64,
    pub thorough: u64,
    /// run on one thread only
    pub serial: bool,
    pub f: CaseFn,
}

impl Part {
    pub const fn random(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Part {
        Part { name, enumerate: None, quick, thorough, serial: false, f }
    }
    pub const fn all(name: &'static str, n: u64, f: CaseFn) -> Part {
        Part { name, enumerate: Some(n), quick: n, thorough: n, serial: false, f }
    }
    pub const fn serial(mut self) -> Part {
        self.serial = true;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
}

// ---------------------------------------------------------------- calling the code under test

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_CALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Is this thread in the code under test?
pub fn in_call() -> bool {
    IN_CALL.with(|c| c.get())
}

pub fn install_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if IN_CALL.with(|c| c.get()) {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m}{loc}"));
        } else {
            default(info);
        }
    }));
}

/// Run a call into the code under test; a panic there becomes a `Fail`.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let was = IN_CALL.with(|c| c.replace(true));
    let r = crate::alloc::with_ceiling(crate::alloc::CEILING, || panic::catch_unwind(AssertUnwindSafe(f)));
    IN_CALL.with(|c| c.set(was));
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            fail(format!("{what} panicked: {m}"))
        }
    }
}

// ---------------------------------------------------------------- running

#[derive(Default)]
struct Acc {
    evals: u64,
    nontrivial: u64,
    subjects: Vec<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    /// milliseconds
    slowest: u64,
}

impl Acc {
    fn add(&mut self, idx: u64, ctx: Ctx) {
        self.evals += 1;
        for l in &ctx.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        if ctx.nontrivial {
            self.nontrivial += 1;
            self.subjects.push(ctx.subject);
            if ctx.want_text && self.samples.len() < 64 {
                self.samples.push((idx, ctx.text));
            }
        }
    }
    fn merge(&mut self, o: Acc) {
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        self.subjects.extend(o.subjects);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
        self.slowest = self.slowest.max(o.slowest);
    }
}

pub fn case_seed(seed: u64, prop: &str, part: &str, idx: u64) -> u64 {
    // other cases in the other build
    let seed = if production() { seed.rotate_left(32) ^ 0x5051 } else { seed };
    let mut x = seed ^ hash(prop.as_bytes()).rotate_left(13) ^ hash(part.as_bytes());
    let a = splitmix(&mut x);
    let mut y = a ^ idx.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut y)
}

fn run_case(part: &Part, src: &mut Src, ctx: &mut Ctx) -> R {
    (part.f)(src, ctx)
}

pub const SAMPLE_CASES: u64 = 400;
pub const CHUNK: u64 = 64;

/// What each worker is doing, for the runaway handler.
pub struct Slot {
    pub idx: AtomicU64,
    pub tick: AtomicU64,
    pub busy: AtomicBool,
}

/// The part that is running.
pub static PART: AtomicUsize = AtomicUsize::new(0);

pub static SLOTS: [Slot; 16] = [const {
    Slot { idx: AtomicU64::new(0), tick: AtomicU64::new(0), busy: AtomicBool::new(false) }
}; 16];

thread_local! {
    pub static MY_SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub struct Current {
    pub prop: String,
    pub part: String,
    pub seed: u64,
    pub tier: String,
    pub enumerate: bool,
}
pub static CURRENT: Mutex<Option<Current>> = Mutex::new(None);

pub struct Found {
    pub part: usize,
    pub idx: u64,
    pub choices: Vec<u64>,
    pub fail: Fail,
}

pub struct Report {
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub parts: Vec<(String, u64, bool)>,
    pub found: Option<Found>,
}

/// In the run of the production build only one case in so many is tried.
const PRODUCTION_SHARE: u64 = 12;
/// Set: the production build is to run, too.
pub const PRODUCTION: &str = "MQTTBYTES_HARNESS_PRODUCTION";

/// Whether this is the build without overflow checks and debug assertions.
pub fn production() -> bool {
    !cfg!(debug_assertions)
}

fn run_part(prop: &Prop, part_no: usize, seed: u64, tier: &str) -> (Acc, Option<Found>) {
    let part = &prop.parts[part_no];
    PART.store(part_no, SeqCst);
    let mut n = if tier == "thorough" { part.thorough } else { part.quick };
    if production() && part.enumerate.is_none() {
        n = n.div_ceil(PRODUCTION_SHARE);
    }
    *CURRENT.lock().unwrap() = Some(Current {
        prop: prop.id.into(),
        part: part.name.into(),
        seed,
        tier: tier.into(),
        enumerate: part.enumerate.is_some(),
    });
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let total: Mutex<Acc> = Mutex::new(Acc::default());
    let threads = if part.serial {
        1
    } else {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 16)
    };
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, best, found, total) = (&next, &best, &found, &total);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    MY_SLOT.with(|m| m.set(t));
                    let slot = &SLOTS[t];
                    let mut acc = Acc::default();
                    'outer: loop {
                        let lo = next.fetch_add(CHUNK, Relaxed);
                        if lo >= n {
                            break;
                        }
                        for idx in lo..(lo + CHUNK).min(n) {
                            if idx > best.load(Relaxed) {
                                break 'outer;
                            }
                            slot.idx.store(idx, Relaxed);
                            slot.tick.fetch_add(1, Relaxed);
                            slot.busy.store(true, Relaxed);
                            let mut ctx = Ctx {
                                want_text: idx < SAMPLE_CASES,
                                thorough: tier == "thorough",
                                ..Ctx::default()
                            };
                            let enum_choice = [idx];
                            let mut src = if part.enumerate.is_some() {
                                Src::replay(&enum_choice)
                            } else {
                                Src::random(case_seed(seed, prop.id, part.name, idx))
                            };
                            let t0 = Instant::now();
                            let r = run_case(part, &mut src, &mut ctx);
                            slot.busy.store(false, Relaxed);
                            acc.slowest = acc.slowest.max(t0.elapsed().as_millis() as u64);
                            match r {
                                Ok(()) => acc.add(idx, ctx),
                                Err(fail) => {
                                    acc.add(idx, ctx);
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().map_or(true, |f| idx < f.idx) {
                                        best.store(idx, Relaxed);
                                        *g = Some(Found { part: part_no, idx, choices: src.rec, fail });
                                    }
                                }
                            }
                        }
                    }
                    total.lock().unwrap().merge(acc);
                })
                .unwrap();
        }
    });
    (total.into_inner().unwrap(), found.into_inner().unwrap())
}

pub fn run_prop(prop: &Prop, seed: u64, tier: &str) -> Report {
    let mut acc = Acc::default();
    let mut parts = Vec::new();
    let mut samples = Vec::new();
    let mut found = None;
    for p in 0..prop.parts.len() {
        let (mut a, f) = run_part(prop, p, seed, tier);
        a.samples.sort();
        samples.extend(
            a.samples
                .drain(..)
                .take(3)
                .map(|(i, t)| format!("[{} #{}] {}", prop.parts[p].name, i, t)),
        );
        if std::env::var_os("MQTTBYTES_HARNESS_TIMES").is_some() {
            eprintln!("slowest case of {} {}: {} ms", prop.id, prop.parts[p].name, a.slowest);
        }
        parts.push((prop.parts[p].name.to_string(), a.evals, prop.parts[p].enumerate.is_some()));
        // labels are kept per part
        acc.merge(a);
        if f.is_some() {
            found = f;
            break;
        }
    }
    acc.subjects.sort_unstable();
    acc.subjects.dedup();
    Report {
        evals: acc.evals,
        nontrivial: acc.nontrivial,
        distinct: acc.subjects.len() as u64,
        labels: acc.labels.into_iter().map(|(k, v)| (k.to_string(), v)).collect(),
        samples,
        parts,
        found,
    }
}

/// Run one case from explicit choices.
pub fn replay(part: &Part, choices: &[u64], text: bool) -> (R, Vec<u64>, String) {
    let mut ctx = Ctx { want_text: text, ..Ctx::default() };
    let mut src = Src::replay(choices);
    let r = run_case(part, &mut src, &mut ctx);
    (r, src.rec, ctx.text)
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Delete and lower choices while the case keeps failing.
pub fn shrink(part: &Part, start: Vec<u64>, fail: Fail) -> (Vec<u64>, Fail) {
    shrink_with(start, fail, |cand| {
        let (r, rec, _) = replay(part, cand, false);
        r.err().map(|f| (rec, f))
    })
}

/// The same for a failure that `again` brings about, with the choices it really used.
pub fn shrink_with(start: Vec<u64>, fail: Fail, mut again: impl FnMut(&[u64]) -> Option<(Vec<u64>, Fail)>) -> (Vec<u64>, Fail) {
    let t0 = Instant::now();
    let mut best = start;
    let mut best_fail = fail;
    let mut tries = 0u32;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, bf: &mut Fail| -> bool {
        tries += 1;
        if tries > 30_000 || t0.elapsed() > Duration::from_secs(25) {
            return false;
        }
        if let Some((rec, f)) = again(cand) {
            let c = if simpler(&rec, cand) { rec } else { cand.to_vec() };
            if simpler(&c, best) {
                *best = c;
                *bf = f;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if lo < best.len() {
                    let hi = i.min(best.len());
                    let mut c = best.clone();
                    c.drain(lo..hi);
                    attempt(&c, &mut best, &mut best_fail);
                }
                i = lo;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    attempt(&c, &mut best, &mut best_fail);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values; also try lowering together with deleting what follows
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let (mut lo, mut hi) = (0u64, v);
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    if attempt(&c, &mut best, &mut best_fail) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                if i < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    for d in 1..=4usize {
                        if i + 1 + d <= c.len() {
                            let mut e = c.clone();
                            e.drain(i + 1..i + 1 + d);
                            if attempt(&e, &mut best, &mut best_fail) {
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > Duration::from_secs(25) {
            break;
        }
    }
    (best, best_fail)
}

// ---------------------------------------------------------------- output

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 160 {
            let _ = write!(s, "...({} bytes)", b.len());
            break;
        }
        let _ = write!(s, "{x:02x}");
    }
    s
}

pub fn clip(s: String) -> String {
    if s.len() <= 900 {
        return s;
    }
    let mut end = 900;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}...({} chars)", &s[..end], s.len())
}
