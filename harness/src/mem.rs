//! A global allocator with guard zones: every block is surrounded by a pattern that is checked when
//! the block is released, fresh memory is filled with a recognisable pattern, and released memory is
//! overwritten. It records violations; the harness reports their number with every event.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Guard;
pub static VIOLATIONS: AtomicUsize = AtomicUsize::new(0);

const PAT: u8 = 0xA7;
const FRESH: u8 = 0x5C;
const ZONE: usize = 32;

fn front(l: &Layout) -> usize {
    ZONE.max(l.align())
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let f = front(&l);
        let Ok(big) = Layout::from_size_align(l.size() + f + ZONE, l.align()) else {
            return std::ptr::null_mut();
        };
        let p = System.alloc(big);
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p, PAT, f);
        let q = p.add(f);
        std::ptr::write_bytes(q, FRESH, l.size());
        std::ptr::write_bytes(q.add(l.size()), PAT, ZONE);
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let f = front(&l);
        let p = q.sub(f);
        let mut bad = false;
        for i in 0..f {
            bad |= *p.add(i) != PAT;
        }
        for i in 0..ZONE {
            bad |= *q.add(l.size() + i) != PAT;
        }
        if bad {
            VIOLATIONS.fetch_add(1, Relaxed);
        }
        std::ptr::write_bytes(q, FRESH, l.size());
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + f + ZONE, l.align()));
    }
}

pub fn violations() -> usize {
    VIOLATIONS.load(Relaxed)
}
