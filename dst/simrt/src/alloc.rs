//! Counting allocator: lets a check bound the memory an operation used.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Counting;

pub static mut CUR: u64 = 0;
pub static mut PEAK: u64 = 0;
pub static mut ON: bool = false;
/// A single request larger than this (or a total above it) is "memory exhausted".
pub static mut LIMIT: u64 = u64::MAX;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON {
            CUR = CUR.wrapping_add(l.size() as u64);
            if CUR > PEAK {
                PEAK = CUR;
            }
            if CUR > LIMIT && CUR < (1 << 62) {
                LIMIT = u64::MAX;
                crate::run::fail_now("memory-limit", "the simulated memory limit was exceeded");
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON {
            CUR = CUR.wrapping_sub(l.size() as u64);
        }
        System.dealloc(p, l)
    }
}

/// Runs `f` and returns how far the heap grew above its level at entry.
pub fn measure<T>(limit: u64, f: impl FnOnce() -> T) -> (T, u64) {
    unsafe {
        CUR = 1 << 40;
        PEAK = CUR;
        LIMIT = CUR + limit;
        ON = true;
        let t = f();
        ON = false;
        LIMIT = u64::MAX;
        (t, PEAK - (1 << 40))
    }
}

/// Starts counting for the rest of the run.
pub fn track() {
    unsafe {
        CUR = 1 << 40;
        ON = true;
    }
}

/// The level of the heap relative to the call of `track`.
pub fn level() -> i64 {
    unsafe { CUR as i64 - (1 << 40) }
}
