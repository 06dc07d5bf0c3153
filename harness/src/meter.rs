//! Processor time of the current thread, and what it has allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get().wrapping_add(n as u64)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALL: Counting = Counting;

/// Bytes this thread has asked for so far.
pub fn allocated() -> u64 {
    BYTES.with(|b| b.get())
}

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time of this thread in nanoseconds.
pub fn cpu() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.ns as u64
}
