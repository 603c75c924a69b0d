//! Counting allocator: live and peak bytes per thread, used to bound what one case may allocate.
//! A thread whose live bytes exceed `CAP` is parked for ever and flagged, so that the watchdog can
//! report the case instead of the kernel killing the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

pub struct Counting;

pub const CAP: i64 = 1 << 31;
pub static BLOWOUT: AtomicBool = AtomicBool::new(false);

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = LARGEST.try_with(|p| {
            if n > p.get() {
                p.set(n)
            }
        });
        if v > CAP {
            BLOWOUT.store(true, SeqCst);
            loop {
                unsafe { libc::pause() };
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64);
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.realloc(p, l, n)
    }
}

/// Runs `f` and returns its result with the peak of additional live bytes it reached.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|p| p.set(0));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}

/// Starts the accounting of a case afresh (cases may free what other threads allocated).
pub fn reset() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
}

/// Bytes this thread has allocated and not freed.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
