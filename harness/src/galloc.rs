//! A global allocator that finds misuse: canaries around every block, layout recorded and compared
//! on release, blocks poisoned when handed out and when released, released blocks kept for a while
//! and checked for writes, addresses aligned no better than requested. Counts are per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Guard;

const HEAD: usize = 48;
const TAIL: usize = 32;
const LIVE: u64 = 0x1b16_a110_c8ed_0001;
const FREED: u64 = 0x1b16_dead_b10c_0002;
const CANARY: u8 = 0xC5;
const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xDD;
const RING: usize = 64;

#[derive(Clone, Copy)]
#[repr(C)]
struct Header {
    magic: u64,
    base: usize,
    total: usize,
    size: usize,
    align: usize,
}

struct Quarantine(UnsafeCell<[usize; RING]>);

thread_local! {
    static BYTES: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    /// requests left before one is refused, and whether all after it are
    static LEFT: Cell<(u64, bool)> = const { Cell::new((u64::MAX, false)) };
    static ERROR: Cell<Option<&'static str>> = const { Cell::new(None) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static KEPT: Quarantine = const { Quarantine(UnsafeCell::new([0; RING])) };
}

fn error(what: &'static str) {
    let _ = ERROR.try_with(|e| {
        if e.get().is_none() {
            e.set(Some(what))
        }
    });
}

/// The first misuse seen on this thread since the last call.
pub fn take_error() -> Option<&'static str> {
    ERROR.with(|e| e.take())
}
/// (live bytes, live blocks) of this thread.
pub fn live() -> (isize, isize) {
    (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()))
}
/// Number of allocations made on this thread.
pub fn allocations() -> u64 {
    TOTAL.with(|b| b.get())
}

/// Refuse the request after the next `n`, and those that follow if `all`. Never with u64::MAX.
pub fn fail_after(n: u64, all: bool) {
    LEFT.with(|l| l.set((n, all)));
}

/// Is this request to be refused?
fn refused() -> bool {
    LEFT.try_with(|l| match l.get() {
        (u64::MAX, _) => false,
        (0, all) => {
            if !all {
                l.set((u64::MAX, false));
            }
            true
        }
        (n, all) => {
            l.set((n - 1, all));
            false
        }
    })
    .unwrap_or(false)
}

unsafe fn really_free(p: usize) {
    let h = (p as *mut u8).sub(HEAD).cast::<Header>().read_unaligned();
    let user = p as *const u8;
    let n = h.size;
    for k in (0..n.min(2048)).chain(n.saturating_sub(64)..n) {
        if *user.add(k) != DEAD {
            error("a released block was written to");
            break;
        }
    }
    System.dealloc(h.base as *mut u8, Layout::from_size_align_unchecked(h.total, 16));
}

/// Release everything kept back.
pub fn flush() {
    KEPT.with(|k| unsafe {
        let ring = &mut *k.0.get();
        for s in ring.iter_mut() {
            if *s != 0 {
                really_free(*s);
                *s = 0;
            }
        }
    });
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let (size, align) = (layout.size(), layout.align());
        if size == 0 {
            error("allocation of size 0");
        }
        if refused() {
            return std::ptr::null_mut();
        }
        let Some(total) = size.checked_add(HEAD + TAIL + 3 * align) else { return std::ptr::null_mut() };
        if total > isize::MAX as usize - 64 {
            return std::ptr::null_mut();
        }
        let base = System.alloc(Layout::from_size_align_unchecked(total, 16)) as usize;
        if base == 0 {
            return std::ptr::null_mut();
        }
        // congruent to align modulo 2 * align
        let lowest = base + HEAD;
        let mut p = (lowest + align - 1) & !(align - 1);
        if p & align == 0 {
            p += align;
        }
        let user = p as *mut u8;
        user.sub(HEAD).write_bytes(CANARY, HEAD);
        user.sub(HEAD).cast::<Header>().write_unaligned(Header { magic: LIVE, base, total, size, align });
        user.write_bytes(FRESH, size);
        user.add(size).write_bytes(CANARY, TAIL);
        let _ = BYTES.try_with(|b| b.set(b.get() + size as isize));
        let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
        let _ = TOTAL.try_with(|b| b.set(b.get() + 1));
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let hp = user.sub(HEAD).cast::<Header>();
        let mut h = hp.read_unaligned();
        if h.magic == FREED {
            error("a block was released twice");
            return;
        }
        if h.magic != LIVE {
            error("a pointer that was not allocated, or whose block was underrun, was released");
            return;
        }
        if h.size != layout.size() || h.align != layout.align() {
            error("a block was released with a layout other than its own");
        }
        for k in std::mem::size_of::<Header>()..HEAD {
            if *user.sub(HEAD).add(k) != CANARY {
                error("memory before a block was overwritten");
            }
        }
        for k in 0..TAIL {
            if *user.add(h.size + k) != CANARY {
                error("memory after a block was overwritten");
                break;
            }
        }
        let _ = BYTES.try_with(|b| b.set(b.get() - h.size as isize));
        let _ = BLOCKS.try_with(|b| b.set(b.get() - 1));
        user.write_bytes(DEAD, h.size);
        h.magic = FREED;
        hp.write_unaligned(h);
        let kept = h.size <= 1 << 16
            && NEXT
                .try_with(|n| {
                    let k = n.get();
                    n.set((k + 1) % RING);
                    KEPT.try_with(|q| {
                        let ring = &mut *q.0.get();
                        let old = std::mem::replace(&mut ring[k], user as usize);
                        if old != 0 {
                            really_free(old);
                        }
                    })
                    .is_ok()
                })
                .unwrap_or(false);
        if !kept {
            really_free(user as usize);
        }
    }
    // realloc and alloc_zeroed: the default ones, which move every block.
}
