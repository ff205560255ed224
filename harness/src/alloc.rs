//! Counts heap allocations made while a library call is running on this thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
}
pub fn arm(on: bool) { ARMED.with(|a| a.set(on)); }
pub fn zero() { COUNT.with(|c| c.set(0)); }
pub fn count() -> usize { COUNT.with(|c| c.get()) }
fn tick() {
    let _ = ARMED.try_with(|a| if a.get() { let _ = COUNT.try_with(|c| c.set(c.get() + 1)); });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { tick(); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { tick(); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { tick(); System.realloc(p, l, n) }
}
