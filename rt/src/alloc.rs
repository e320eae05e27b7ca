//! An allocator that can refuse large allocations of a single thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static REFUSED: Cell<u32> = const { Cell::new(0) };
}

pub struct Limited;

fn refuse(size: usize) -> bool {
    LIMIT
        .try_with(|l| {
            let refuse = size >= l.get();
            if refuse {
                let _ = REFUSED.try_with(|r| r.set(r.get() + 1));
            }
            refuse
        })
        .unwrap_or(false)
}

unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        match refuse(layout.size()) {
            true => std::ptr::null_mut(),
            false => System.alloc(layout),
        }
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        match refuse(layout.size()) {
            true => std::ptr::null_mut(),
            false => System.alloc_zeroed(layout),
        }
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        System.dealloc(ptr, layout)
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        match refuse(size) {
            true => std::ptr::null_mut(),
            false => System.realloc(ptr, layout, size),
        }
    }
}

#[global_allocator]
static GLOBAL: Limited = Limited;

pub struct Armed;

pub fn arm(limit: usize) -> Armed {
    REFUSED.with(|r| r.set(0));
    LIMIT.with(|l| l.set(limit));
    Armed
}

impl Armed {
    pub fn disarm(self) -> u32 {
        LIMIT.with(|l| l.set(usize::MAX));
        REFUSED.with(|r| r.get())
    }
}

pub struct Suspended(usize);

/// No limit until the result is dropped
pub fn suspend() -> Suspended {
    Suspended(LIMIT.with(|l| l.replace(usize::MAX)))
}

impl Drop for Suspended {
    fn drop(&mut self) {
        LIMIT.with(|l| l.set(self.0));
    }
}
