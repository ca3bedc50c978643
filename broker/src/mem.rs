//! Memory of the code under test: an allocator that tells it from the memory of everything else

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
const SUBJECT: usize = 0x5ab1ec7;

pub struct Counting;

/// Bytes in front of each block
fn head(l: Layout) -> usize {
    l.align().max(16)
}
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
unsafe fn tag(p: *mut u8) -> *mut usize {
    p.sub(std::mem::size_of::<usize>()).cast()
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, h));
        if p.is_null() {
            return p;
        }
        let p = p.add(h);
        let subject = tokio::mc::in_subject();
        *tag(p) = if subject { SUBJECT } else { 0 };
        if subject {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let h = head(l);
        let p = System.alloc_zeroed(Layout::from_size_align_unchecked(l.size() + h, h));
        if p.is_null() {
            return p;
        }
        let p = p.add(h);
        let subject = tokio::mc::in_subject();
        *tag(p) = if subject { SUBJECT } else { 0 };
        if subject {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if *tag(p) == SUBJECT {
            add(-(l.size() as i64));
        }
        let h = head(l);
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let h = head(l);
        let subject = *tag(p) == SUBJECT;
        let n = System.realloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h), size + h);
        if n.is_null() {
            return n;
        }
        if subject {
            add(size as i64 - l.size() as i64);
        }
        n.add(h)
    }
}

/// Bytes that the code under test holds, on this thread
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// The most it held since the last call
pub fn peak() -> i64 {
    PEAK.with(|p| p.replace(live()))
}
