//! Counting allocator: the largest single request and the peak of live bytes of the current thread while tracking.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn note(size: usize) {
    let _ = ON.try_with(|on| if on.get() {
        LARGEST.with(|l| if size > l.get() { l.set(size) });
        LIVE.with(|l| { let n = l.get() + size as isize; l.set(n); PEAK.with(|p| if n > p.get() { p.set(n) }) });
    });
}
fn unnote(size: usize) { let _ = ON.try_with(|on| if on.get() { LIVE.with(|l| l.set(l.get() - size as isize)) }); }

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unnote(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); unnote(l.size()); System.realloc(p, l, n) }
}

/// Run `f`; returns its result, the largest single allocation and the peak of bytes it held.
pub fn track<R>(f: impl FnOnce() -> R) -> (R, usize, usize) {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { ON.with(|o| o.set(false)) } }
    LARGEST.with(|l| l.set(0)); LIVE.with(|l| l.set(0)); PEAK.with(|l| l.set(0));
    ON.with(|o| o.set(true));
    let off = Off;
    let r = f();
    drop(off);
    (r, LARGEST.with(|l| l.get()), PEAK.with(|l| l.get()).max(0) as usize)
}
