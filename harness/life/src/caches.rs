//! What the built-in allocators ask of the system when they are told to make code visible.
//! On 32-bit ARM Linux that is a system call, which is seen on its way through the C library.
use crate::log::emit;
use closure_ffi::jit_alloc::{GlobalJitAlloc, JitAlloc, JitAllocError, ProtectJitAccess, ThreadJitAlloc};
use closure_ffi::{BareFnAny, BareFnMutAny, BareFnOnceAny};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// Start of the range being asked for; 0: none
static BASE: AtomicUsize = AtomicUsize::new(0);

fn told(lo: usize, hi: usize) {
    let base = BASE.load(SeqCst);
    if base != 0 {
        let at = |x: usize| (x as i64 - base as i64).clamp(-1_000_000, 1_000_000);
        emit(|l| l.s("e", "sys").n("lo", at(lo)).n("hi", at(hi)));
    }
}

#[cfg(target_arch = "arm")]
mod seen {
    use libc::{c_char, c_int, c_long, c_void};

    unsafe fn next<T: Copy>(name: &[u8]) -> T {
        let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
        assert!(!p.is_null());
        std::mem::transmute_copy::<*mut c_void, T>(&p)
    }

    type Call = unsafe extern "C" fn(c_long, usize, usize, usize, usize, usize, usize) -> c_long;
    #[no_mangle]
    unsafe extern "C" fn syscall(
        n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize,
    ) -> c_long {
        if n == 0x0f0002 {
            super::told(a, b);
        }
        next::<Call>(b"syscall\0")(n, a, b, c, d, e, f)
    }
    #[no_mangle]
    unsafe extern "C" fn __clear_cache(lo: usize, hi: usize) {
        super::told(lo, hi);
        syscall(0x0f0002, lo, hi, 0, 0, 0, 0);
    }
    #[no_mangle]
    unsafe extern "C" fn cacheflush(p: usize, n: c_int, _: c_int) -> c_int {
        super::told(p, p + n as usize);
        syscall(0x0f0002, p, p + n as usize, 0, 0, 0, 0) as c_int
    }
}

#[derive(Clone)]
struct Seen<A>(A);
impl<A: JitAlloc> JitAlloc for Seen<A> {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        self.0.alloc(size)
    }
    unsafe fn release(&self, rx_ptr: *const u8) -> Result<(), JitAllocError> {
        self.0.release(rx_ptr)
    }
    unsafe fn protect_jit_memory(&self, ptr: *const u8, size: usize, access: ProtectJitAccess) {
        self.0.protect_jit_memory(ptr, size, access)
    }
    unsafe fn flush_instruction_cache(&self, rx_ptr: *const u8, size: usize) {
        emit(|l| l.s("e", "ask").n("n", size as i64));
        BASE.store(rx_ptr as usize, SeqCst);
        self.0.flush_instruction_cache(rx_ptr, size);
        BASE.store(0, SeqCst);
        emit(|l| l.s("e", "done"));
    }
}

fn wrappers<A: JitAlloc + Clone + 'static>(a: &Seen<A>) {
    let (x, y) = (std::hint::black_box(5u32), [std::hint::black_box(7u8); 100]);
    type S = unsafe extern "C" fn(u32, f64) -> u32;
    drop(BareFnAny::<S, dyn Send, _>::new_in(move |v: u32, _: f64| v + x, a.clone()));
    drop(BareFnMutAny::<S, dyn Send, _>::new_in(move |v: u32, _: f64| v + x, a.clone()));
    drop(BareFnOnceAny::<S, dyn Send, _>::new_in(move |v: u32, w: f64| v + y[w as usize % 100] as u32, a.clone()));
}

fn requests<A: JitAlloc + Clone + 'static>(a: Seen<A>, all: &[(usize, usize)]) {
    let (rx, _) = a.alloc(1024).expect("1 KB of executable memory");
    for &(off, n) in all {
        unsafe { a.flush_instruction_cache(rx.add(off), n) };
    }
    wrappers(&a);
    let _ = unsafe { a.release(rx) };
}

/// text: one request per line, offset and length
pub fn run(text: &str) {
    let all: Vec<(usize, usize)> = text
        .lines()
        .map(|l| l.split_once(' ').unwrap())
        .map(|(o, n)| (o.parse().unwrap(), n.parse().unwrap()))
        .collect();
    requests(Seen(GlobalJitAlloc), &all);
    requests(Seen(ThreadJitAlloc::default()), &all);
}
