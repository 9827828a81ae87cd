//! Counts the bytes of ordinary heap the current thread holds on to.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;

thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = NET.try_with(|c| c.set(c.get() + n));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        // make use after free visible
        std::ptr::write_bytes(p, 0xd7, l.size());
        System.dealloc(p, l)
    }
}

#[global_allocator]
static G: Counting = Counting;

pub fn net() -> i64 {
    NET.with(|c| c.get())
}

/// Heap traffic between creation and drop is not counted (user code and the harness itself).
pub struct Pause(i64);
impl Pause {
    pub fn new() -> Pause {
        Pause(net())
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        NET.with(|c| c.set(self.0));
    }
}
pub fn set(n: i64) {
    NET.with(|c| c.set(n));
}
