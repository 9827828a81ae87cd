//! Remembers where the boxed template object (the only object of its size class) was put.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

pub static LAST: AtomicUsize = AtomicUsize::new(0);
pub const CLOSURE: usize = 1032 + 8;

struct Watching;
unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if l.size() == CLOSURE && l.align() == align_of::<usize>() {
            LAST.store(p as usize, Ordering::Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: Watching = Watching;
