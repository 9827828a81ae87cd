//! Types whose thread markers are known, and an allocator for each.
use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};
use std::cell::Cell;
use std::marker::PhantomData;
use std::sync::MutexGuard;

macro_rules! kinds {
    ($($n:ident $t:ty;)*) => { $(
        #[derive(Clone, Copy)]
        pub struct $n(pub PhantomData<$t>);
        impl JitAlloc for $n {
            fn alloc(&self, _: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
                Err(JitAllocError)
            }
            unsafe fn release(&self, _: *const u8) -> Result<(), JitAllocError> {
                Ok(())
            }
            unsafe fn protect_jit_memory(&self, _: *const u8, _: usize, _: ProtectJitAccess) {}
            unsafe fn flush_instruction_cache(&self, _: *const u8, _: usize) {}
        }
    )* };
}
kinds! {
    Neither *const ();
    Send1 Cell<()>;
    Sync1 MutexGuard<'static, ()>;
    Both ();
}
pub static STATIC: u32 = 5;
pub static ALLOC: Both = Both(PhantomData);
pub type F = unsafe extern "C" fn(u32) -> u32;
pub fn send<T: Send + ?Sized>(_: &T) {}
pub fn sync<T: Sync + ?Sized>(_: &T) {}
pub fn keep<T: 'static>(_: T) {}
