//! Counts what is allocated, so that a check can tell whether something was kept.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::Relaxed};

pub struct Counting;

static ON: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicIsize = AtomicIsize::new(0);
static BLOCKS: AtomicIsize = AtomicIsize::new(0);

static PEAK: AtomicIsize = AtomicIsize::new(0);
static TOTAL: AtomicIsize = AtomicIsize::new(0);

fn count(bytes: isize, blocks: isize) {
    if ON.load(Relaxed) {
        let now = BYTES.fetch_add(bytes, Relaxed) + bytes;
        BLOCKS.fetch_add(blocks, Relaxed);
        if bytes > 0 {
            PEAK.fetch_max(now, Relaxed);
            TOTAL.fetch_add(bytes, Relaxed);
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize, 1);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize, 0);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize), -1);
        System.dealloc(p, l)
    }
}

/// What is allocated more after `f` than before, in bytes and in blocks. No other thread may be busy.
pub fn growth<T>(f: impl FnOnce() -> T) -> (T, isize, isize) {
    BYTES.store(0, Relaxed);
    BLOCKS.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    TOTAL.store(0, Relaxed);
    ON.store(true, Relaxed);
    let r = f();
    ON.store(false, Relaxed);
    (r, BYTES.load(Relaxed), BLOCKS.load(Relaxed))
}

/// Memory which something took, in bytes.
#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    /// At most at the same time.
    pub peak: isize,
    /// Altogether, whether given back or not.
    pub total: isize,
    /// Afterwards.
    pub kept: isize,
}

pub fn usage<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let (r, kept, _) = growth(f);
    (r, Usage { peak: PEAK.load(Relaxed), total: TOTAL.load(Relaxed), kept })
}
