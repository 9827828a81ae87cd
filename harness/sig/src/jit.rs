//! A plain allocator: one read-write-execute mapping, blocks at odd addresses, nothing reused.
use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};
use std::sync::atomic::{AtomicUsize, Ordering};

const SIZE: usize = 8 << 20;
static BASE: AtomicUsize = AtomicUsize::new(0);
static USED: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy, Default)]
pub struct Bump;

impl JitAlloc for Bump {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        if BASE.load(Ordering::SeqCst) == 0 {
            let p = unsafe {
                libc::mmap(std::ptr::null_mut(), SIZE, 7, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0)
            };
            assert!(p != libc::MAP_FAILED);
            BASE.store(p as usize, Ordering::SeqCst);
        }
        let at = USED.fetch_add(size + 5, Ordering::SeqCst);
        assert!(at + size <= SIZE);
        let p = (BASE.load(Ordering::SeqCst) + at) as *mut u8;
        Ok((p, p))
    }
    unsafe fn release(&self, _: *const u8) -> Result<(), JitAllocError> {
        Ok(())
    }
    unsafe fn protect_jit_memory(&self, _: *const u8, _: usize, _: ProtectJitAccess) {}
    unsafe fn flush_instruction_cache(&self, p: *const u8, n: usize) {
        #[cfg(target_arch = "arm")]
        libc::syscall(0x0f0002, p, p.add(n), 0);
        #[cfg(target_arch = "aarch64")]
        core::arch::asm!("dsb ish", "isb");
    }
}
