//! A global allocator whose fresh blocks hold no zeros, so that reading memory before writing it shows in the results.

use std::alloc::{GlobalAlloc, Layout, System};

pub struct Dirty;

const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xDD;
/// Longer blocks are filled at the start only.
const MOST: usize = 1 << 18;

unsafe impl GlobalAlloc for Dirty {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if !p.is_null() {
            p.write_bytes(FRESH, layout.size().min(MOST));
        }
        p
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        p.write_bytes(DEAD, layout.size().min(MOST));
        System.dealloc(p, layout)
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p, layout, size);
        if !q.is_null() && size > layout.size() {
            q.add(layout.size()).write_bytes(FRESH, (size - layout.size()).min(MOST));
        }
        q
    }
}
