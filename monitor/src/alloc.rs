//! Counts the allocations of the current thread, so that the capacity promises of the caches can be observed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
pub struct Counting;
fn note(n: u64, b: i64) { let _ = COUNT.try_with(|c| c.set(c.get() + n)); let _ = LIVE.try_with(|c| c.set(c.get() + b)); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(1, l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(1, l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(0, -(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(1, n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
/// (allocations so far, live bytes) of this thread
pub fn stats() -> (u64, i64) { (COUNT.with(|c| c.get()), LIVE.with(|c| c.get())) }
