//! Counting allocator: live and peak bytes per thread, with a ceiling inside calls to the crate.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::*};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    /// bytes ever asked for
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    /// ceiling for live bytes on this thread; isize::MAX when not inside a call
    static CEIL: Cell<isize> = const { Cell::new(isize::MAX) };
}

/// 1 + index of the worker that ran past its ceiling
pub static RUNAWAY: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n)));
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = CEIL.try_with(|c| {
            if v > c.get() {
                let slot = crate::engine::MY_SLOT.with(|m| m.get());
                RUNAWAY.store(slot + 1, SeqCst);
                loop {
                    std::thread::sleep(std::time::Duration::from_secs(1));
                }
            }
        });
    });
}

fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new block may live side by side
        add(n);
        let r = System.realloc(p, l, n);
        sub(l.size());
        r
    }
}

/// Default ceiling for one call into the crate.
pub const CEILING: usize = 3 << 30;

pub fn with_ceiling<T>(bytes: usize, f: impl FnOnce() -> T) -> T {
    let old = CEIL.with(|c| c.get());
    let base = LIVE.with(|l| l.get());
    CEIL.with(|c| c.set((base.saturating_add(bytes as isize)).min(old)));
    let r = f();
    CEIL.with(|c| c.set(old));
    r
}

/// Peak extra bytes live during `f`.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let pk = PEAK.with(|p| p.get());
    (r, (pk - base).max(0) as usize)
}

/// All bytes asked for during `f`, given back or not.
pub fn total<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = TOTAL.with(|t| t.get());
    let r = f();
    (r, TOTAL.with(|t| t.get()).wrapping_sub(base))
}

/// Bytes this thread holds, give or take what it passed to others.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
