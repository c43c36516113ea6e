//! Global allocator that remembers the largest single request of the current thread, so that a check can tell when the
//! code under test sizes an allocation by an untrusted field.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;

thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    // bytes allocated minus bytes freed by this thread, and the highest value since the last reset
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn change(d: isize) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + d);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}

fn note(n: usize) {
    let _ = MAX.try_with(|m| {
        if n > m.get() {
            m.set(n);
        }
    });
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        change(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        change(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        change(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static WATCH: Watch = Watch;

pub fn reset() {
    MAX.with(|m| m.set(0));
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
}

pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

pub fn peak() -> isize {
    PEAK.with(|p| p.get())
}

pub fn largest() -> usize {
    MAX.with(|m| m.get())
}
