//! The heap of a program's invocation: a bump allocator of 32 KiB that never frees, as on chain.
//!
//! Every allocation a program makes is counted (also the new block of a reallocation); those of the simulator in the
//! system calls are not.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::AtomicUsize;

pub const HEAP: usize = 32 * 1024;
/// The most an accepted instruction needed
pub static PEAK: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static USED: Cell<usize> = const { Cell::new(0) };
}

pub struct Counting;

#[inline(always)]
fn count(n: usize, align: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = USED.try_with(|u| {
                // the bump allocator grows downwards and rounds to the alignment
                let x = u.get() + n;
                u.set((x + align - 1) / align * align)
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size(), l.align());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size(), l.align());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n, l.align());
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

/// Starts the invocation of a program with `start` bytes in use
pub fn enter(start: usize) {
    USED.with(|u| u.set(start));
    ON.with(|o| o.set(true));
}
/// Ends it and returns the bytes used
pub fn leave() -> usize {
    ON.with(|o| o.set(false));
    USED.with(|u| u.get())
}
/// Whether an invocation is measured; stops
pub fn pause() -> bool {
    ON.with(|o| o.replace(false))
}
pub fn resume(on: bool) {
    ON.with(|o| o.set(on))
}
