//! Counting allocator: per-thread live bytes and peak, and a hard cap on single
//! allocations in simulated threads (allocation failure is one of the faults).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
fn over(n: usize) -> bool {
    CAP.try_with(|c| n > c.get()).unwrap_or(false)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as isize);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if over(n) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as isize - l.size() as isize);
        }
        q
    }
}

/// No single allocation on this thread may exceed `n` bytes.
pub fn set_cap(n: usize) {
    CAP.with(|c| c.set(n));
}

/// Starts a measurement on this thread; returns the current live bytes.
pub fn mark() -> isize {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    l
}

/// Peak live bytes since `mark`, relative to it.
pub fn peak_since(mark: isize) -> usize {
    PEAK.with(|p| (p.get() - mark).max(0) as usize)
}

pub fn install_hook() {
    std::alloc::set_alloc_error_hook(|l| {
        panic!("ALLOC allocation of {} bytes refused", l.size());
    });
}
