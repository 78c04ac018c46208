//! Counting global allocator: per-thread bytes in use and their peak, and a
//! ceiling on single allocations so that a size taken from the input aborts
//! at once (the supervisor reports it) instead of exhausting the machine.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

/// No legitimate allocation of the harness or of the code comes near this.
const REFUSE: usize = 1 << 30;
/// Nor does what one thread has in use come near this.
const REFUSE_ALL: isize = 3 << 30;

thread_local! {
    static USED: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = USED.try_with(|u| {
        let v = u.get() + n as isize;
        u.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = LARGEST.try_with(|l| {
        if n > l.get() {
            l.set(n)
        }
    });
}

/// Refuse a request of this size? It counts as made even so.
fn refuse(n: usize) -> bool {
    let no = n > REFUSE || USED.try_with(|u| u.get() > REFUSE_ALL).unwrap_or(false);
    if no {
        add(n);
        sub(n);
    }
    no
}

fn sub(n: usize) {
    let _ = USED.try_with(|u| u.set(u.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) {
            return std::ptr::null_mut();
        }
        // as if old and new existed together, which they may
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    /// Peak of the bytes in use above those in use at the start.
    pub peak: usize,
    /// Largest single request.
    pub largest: usize,
}

/// Run `f` and measure what this thread allocates meanwhile.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = USED.with(|u| u.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|l| l.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (r, Usage { peak: peak.max(0) as usize, largest: LARGEST.with(|l| l.get()) })
}

/// Bytes that this thread has in use.
pub fn used() -> isize {
    USED.with(|u| u.get())
}
