//! The check runs in a child process. When a call into the crate ends that process (stack overflow,
//! abort, exit, illegal memory access), a handler says on descriptor 0 which case it was, and the
//! parent reports it. A crash outside such a call is the harness's own and is not reported as one.

use crate::engine::{in_call, MY_SLOT, PART, SLOTS};
use std::os::unix::process::ExitStatusExt;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::*;

const CPU: &str = "MQTTBYTES_HARNESS_CPU";
pub const CHILD: &str = "MQTTBYTES_HARNESS_CHILD";
const CODE: i32 = 70;

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" {
    fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn atexit(f: extern "C" fn()) -> i32;
    fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn put(buf: &mut [u8], n: &mut usize, mut v: u64) {
    let mut d = [0u8; 20];
    let mut k = 0;
    loop {
        d[k] = b'0' + (v % 10) as u8;
        k += 1;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    while k > 0 {
        k -= 1;
        buf[*n] = d[k];
        *n += 1;
    }
    buf[*n] = b' ';
    *n += 1;
}

extern "C" fn on_exit() {
    on_signal(0)
}

extern "C" fn on_signal(sig: i32) {
    if !in_call() {
        return; // for a signal, the default action, which is set again, follows
    }
    let slot = MY_SLOT.with(|m| m.get());
    let mut b = [0u8; 96];
    let mut n = 0;
    put(&mut b, &mut n, sig as u64);
    put(&mut b, &mut n, PART.load(SeqCst) as u64);
    put(&mut b, &mut n, SLOTS[slot % SLOTS.len()].idx.load(SeqCst));
    b[n - 1] = b'\n';
    unsafe {
        write(0, b.as_ptr().cast(), n);
        _exit(CODE)
    }
}

pub struct Crash {
    pub signal: i32,
    pub part: usize,
    pub idx: u64,
}

impl Crash {
    pub fn text(&self) -> String {
        let s = match self.signal {
            0 => "exit()",
            4 => "SIGILL",
            6 => "SIGABRT",
            7 => "SIGBUS",
            8 => "SIGFPE",
            11 => "SIGSEGV (a stack overflow, or an illegal memory access)",
            _ => "a signal",
        };
        format!("a call into the crate ended the process with {s}")
    }
}

/// In the child: say where it ends.
pub fn watch() {
    if let Some(n) = std::env::var(CPU).ok().and_then(|s| s.parse().ok()) {
        unsafe { setrlimit(0, &[n, n]) }; // RLIMIT_CPU
    }
    let a = Action {
        handler: on_signal as extern "C" fn(i32) as usize,
        mask: [0; 16],
        flags: 0x0800_0000 | 0x8000_0000u32 as i32, // SA_ONSTACK | SA_RESETHAND
        restorer: 0,
    };
    for s in [4, 6, 7, 8, 11] {
        unsafe { sigaction(s, &a, std::ptr::null_mut()) };
    }
    unsafe { atexit(on_exit) };
    unsafe { prctl(1, 9, 0, 0, 0) }; // PR_SET_PDEATHSIG
}

pub enum End {
    Code(i32),
    Crash(Crash),
    /// past its limit of CPU time
    Stuck,
}

/// Run this program again, with these arguments, as the child; `cpu`: seconds it may use.
/// With `quiet`, what it says on stderr is returned.
pub fn run(args: &[&str], quiet: bool, cpu: Option<u32>) -> (End, String) {
    let (mut r, w) = std::io::pipe().expect("pipe");
    let exe = std::env::current_exe().expect("current_exe");
    let mut c = Command::new(exe);
    c.args(args).env(CHILD, "1").stdin(Stdio::from(w));
    if let Some(n) = cpu {
        c.env(CPU, n.to_string());
    }
    let mut err = String::new();
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::piped());
    }
    let mut child = c.spawn().expect("spawn");
    drop(c); // holds the writing end
    if let Some(mut e) = child.stderr.take() {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        err = String::from_utf8_lossy(&v).into_owned();
    }
    let st = child.wait().expect("wait");
    let mut s = String::new();
    let _ = r.read_to_string(&mut s);
    let v: Vec<u64> = s.lines().next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let end = match (st.code(), &v[..]) {
        (Some(CODE), &[sig, part, idx]) => End::Crash(Crash { signal: sig as i32, part: part as usize, idx }),
        (Some(c), _) => End::Code(c),
        (None, _) if cpu.is_some() && matches!(st.signal(), Some(9 | 24)) => End::Stuck,
        (None, _) => {
            eprintln!("the check itself ended with signal {:?}", st.signal());
            End::Code(3)
        }
    };
    (end, err)
}
