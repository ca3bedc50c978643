//! Counts what the codec allocates

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy, Default, Debug)]
pub struct Use {
    /// Most bytes at once
    pub peak: usize,
    /// All bytes together
    pub total: usize,
    /// Still there at the end
    pub kept: usize,
}
struct Count {
    on: Cell<bool>,
    live: Cell<isize>,
    peak: Cell<isize>,
    total: Cell<usize>,
}
thread_local! {
    static COUNT: Count = const { Count { on: Cell::new(false), live: Cell::new(0), peak: Cell::new(0), total: Cell::new(0) } };
}
fn add(n: isize) {
    let _ = COUNT.try_with(|c| {
        if c.on.get() {
            let v = c.live.get() + n;
            c.live.set(v);
            c.peak.set(c.peak.get().max(v));
            if n > 0 {
                c.total.set(c.total.get() + n as usize);
            }
        }
    });
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        // both may be there at a time
        add(size as isize);
        add(-(l.size() as isize));
        System.realloc(p, l, size)
    }
}

/// What `f` allocates on this thread
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    COUNT.with(|c| {
        c.live.set(0);
        c.peak.set(0);
        c.total.set(0);
        c.on.set(true);
        let t = f();
        c.on.set(false);
        (t, Use { peak: c.peak.get() as usize, total: c.total.get(), kept: c.live.get().max(0) as usize })
    })
}
