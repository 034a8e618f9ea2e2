//! Counts the bytes allocated by each thread, and is where the controlled scheduler may switch threads.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = NOW.try_with(|c| {
        let x = c.get() + n;
        c.set(x);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if x > p.get() {
                    p.set(x);
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sched::point();
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::sched::point();
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// What this thread holds now; the peak is counted from here.
pub fn mark() -> isize {
    let n = NOW.with(|c| c.get());
    PEAK.with(|p| p.set(n));
    n
}
pub fn peak(mark: isize) -> usize {
    (PEAK.with(|p| p.get()) - mark).max(0) as usize
}
