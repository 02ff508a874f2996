//! Work done by ibig: how many edges of its code were taken by this thread, and how much memory it asked for
//! (copies made with memcpy take no edges, but they need a place to go) (cfg counted).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static EDGES: Cell<u64> = const { Cell::new(0) };
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    EDGES.with(|c| c.set(c.get() + 1));
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

/// What f costs.
pub fn cost<R>(f: impl FnOnce() -> R) -> u64 {
    let start = EDGES.with(|c| c.get());
    let r = f();
    let n = EDGES.with(|c| c.get()) - start;
    drop(r);
    n
}

pub struct Counting;
fn add(bytes: usize) {
    let _ = EDGES.try_with(|c| c.set(c.get() + bytes as u64 / 16));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
