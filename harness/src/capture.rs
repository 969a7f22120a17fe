//! Redirects file descriptors 1 and 2 into memory while the code under test runs.

use std::io::Write;
use std::sync::atomic::{AtomicI32, Ordering::*};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
    fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize;
    fn ftruncate(fd: i32, n: i64) -> i32;
}

static OUT: AtomicI32 = AtomicI32::new(-1);
static ERR: AtomicI32 = AtomicI32::new(-1);
static MEM: AtomicI32 = AtomicI32::new(-1);

/// Give the process its own stdout and stderr back (also called by the watchdog).
pub fn restore() {
    let (o, e) = (OUT.swap(-1, SeqCst), ERR.swap(-1, SeqCst));
    unsafe {
        if o >= 0 {
            dup2(o, 1);
            close(o);
        }
        if e >= 0 {
            dup2(e, 2);
            close(e);
        }
    }
}

/// What `f` wrote to file descriptors 1 and 2. Single-threaded use only.
pub fn during<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    unsafe {
        if MEM.load(SeqCst) < 0 {
            MEM.store(memfd_create(c"capture".as_ptr(), 0), SeqCst);
        }
        let mem = MEM.load(SeqCst);
        assert!(mem >= 0, "memfd_create failed");
        ftruncate(mem, 0);
        lseek(mem, 0, 0);
        let _ = std::io::stdout().flush();
        let _ = std::io::stderr().flush();
        OUT.store(dup(1), SeqCst);
        ERR.store(dup(2), SeqCst);
        assert!(OUT.load(SeqCst) >= 0 && ERR.load(SeqCst) >= 0);
        dup2(mem, 1);
        dup2(mem, 2);
        let r = f();
        let _ = std::io::stdout().flush();
        let _ = std::io::stderr().flush();
        restore();
        let n = lseek(mem, 0, 2).max(0) as usize;
        lseek(mem, 0, 0);
        let mut v = vec![0u8; n.min(4096)];
        let k = read(mem, v.as_mut_ptr().cast(), v.len()).max(0) as usize;
        v.truncate(k);
        (r, v)
    }
}
