//! Counting allocator: observes how much memory a load holds, and refuses to exceed a ceiling.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static ON: AtomicBool = AtomicBool::new(false);
static CURRENT: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

fn grow(by: usize) -> bool {
    let now = CURRENT.fetch_add(by, Relaxed) + by;
    PEAK.fetch_max(now, Relaxed);
    if now > LIMIT.load(Relaxed) {
        CURRENT.fetch_sub(by, Relaxed);
        return false;
    }
    true
}

fn shrink(by: usize) {
    // Blocks from before the measurement may be freed during it
    let _ = CURRENT.try_update(Relaxed, Relaxed, |v| Some(v.saturating_sub(by)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) && !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) && !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            shrink(l.size());
        }
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            if !grow(new) {
                return std::ptr::null_mut();
            }
            shrink(l.size());
        }
        System.realloc(p, l, new)
    }
}

/// Runs f holding at most `limit` bytes more than now; an attempt to exceed that aborts the process.
pub fn measured<T>(limit: usize, f: impl FnOnce() -> T) -> (T, usize) {
    CURRENT.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
    ON.store(true, Relaxed);
    let out = f();
    ON.store(false, Relaxed);
    (out, PEAK.load(Relaxed))
}

/// By how much more memory is held after f than before.
pub fn growth(f: impl FnOnce()) -> i64 {
    const BASE: usize = 1 << 40;
    CURRENT.store(BASE, Relaxed);
    LIMIT.store(usize::MAX, Relaxed);
    ON.store(true, Relaxed);
    f();
    ON.store(false, Relaxed);
    CURRENT.load(Relaxed) as i64 - BASE as i64
}
