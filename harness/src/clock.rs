//! The clocks of this process, which can be put forward. The standard library finds this `clock_gettime` instead
//! of the one in the C library, so what the crate under test asks for the time gets the shifted one.

use std::ffi::{c_char, c_void};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::*};

#[repr(C)]
pub struct TimeSpec {
    pub sec: i64,
    pub nsec: i64,
}

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}

/// Seconds on top of the time since some point, and of the date.
static STEADY: AtomicI64 = AtomicI64::new(0);
static DATE: AtomicI64 = AtomicI64::new(0);
static REAL: AtomicUsize = AtomicUsize::new(0);

/// # Safety
/// As for the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut TimeSpec) -> i32 {
    let mut f = REAL.load(Relaxed);
    if f == 0 {
        f = dlsym(-1isize as *mut c_void, c"clock_gettime".as_ptr()) as usize;
        if f == 0 {
            return -1;
        }
        REAL.store(f, Relaxed);
    }
    let f: extern "C" fn(i32, *mut TimeSpec) -> i32 = std::mem::transmute(f);
    let r = f(id, t);
    if r == 0 {
        match id {
            0 | 5 | 11 => (*t).sec += DATE.load(Relaxed),
            1 | 4 | 6 | 7 => (*t).sec += STEADY.load(Relaxed),
            _ => {}
        }
    }
    r
}

/// Time passes.
pub fn forward(seconds: i64) {
    STEADY.fetch_add(seconds, SeqCst);
    DATE.fetch_add(seconds, SeqCst);
}

/// Another date.
pub fn date(seconds: i64) {
    DATE.fetch_add(seconds, SeqCst);
}

#[cfg(test)]
mod test {
    #[test]
    fn time_passes() {
        let (a, d) = (std::time::Instant::now(), std::time::SystemTime::now());
        super::forward(1000);
        assert!((1000..1010).contains(&a.elapsed().as_secs()));
        super::date(5000);
        assert!((6000..6010).contains(&d.elapsed().unwrap().as_secs()));
    }
}
