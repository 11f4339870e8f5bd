//! Notices requests for no memory at all, which the allocator's contract forbids (undefined behaviour).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static EMPTY: Cell<bool> = const { Cell::new(false) };
}

pub struct Watch;

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        System.alloc(noted(layout))
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        System.alloc_zeroed(noted(layout))
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let size = noted(Layout::from_size_align_unchecked(size, layout.align())).size();
        System.realloc(ptr, noted(layout), size)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        System.dealloc(ptr, noted(layout))
    }
}

/// What the system is asked for: at least one byte.
#[inline]
fn noted(layout: Layout) -> Layout {
    if layout.size() == 0 {
        let _ = EMPTY.try_with(|e| e.set(true));
        return unsafe { Layout::from_size_align_unchecked(1, layout.align()) };
    }
    layout
}

/// Whether this thread asked for nothing since the last look.
pub fn empty_request() -> bool {
    EMPTY.try_with(|e| e.replace(false)).unwrap_or(false)
}
