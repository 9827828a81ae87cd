//! Recording allocators.
//!
//! Allocators 1 and 2 hand out blocks of an arena with two views (natively: one read-execute and
//! one read-write mapping of the same memory; under qemu one read-write-execute mapping), at
//! arbitrary alignments, with guard bytes in between, filled with random bytes.
//! Allocators 3 and 4 pass requests on to the library's own global and per-thread allocators
//! (except on 32-bit ARM).
use crate::log::{self, Log};
use closure_ffi::jit_alloc::{
    GlobalJitAlloc, JitAlloc, JitAllocError, ProtectJitAccess, ThreadJitAlloc,
};
use std::cell::Cell;
use std::sync::Mutex;

const ARENA: usize = 1 << 20;

thread_local! {
    pub static TID: Cell<i64> = const { Cell::new(1) };
    pub static REFUSE: Cell<bool> = const { Cell::new(false) };
}
pub fn tid() -> i64 {
    TID.with(|t| t.get())
}

#[derive(Clone)]
struct Block {
    id: i64,
    rx: usize,
    rw: usize,
    size: usize,
    live: bool,
    arena: bool,
    thread: i64,
    shadow: Vec<u8>,
}

pub struct State {
    rx: usize,
    rw: usize,
    used: usize,
    guard: Vec<u8>,
    blocks: Vec<Block>,
    free: Vec<(usize, usize)>,
    rng: u64,
    free_run: bool,
    ptrs: Vec<usize>,
}

static STATE: Mutex<State> = Mutex::new(State {
    rx: 0,
    rw: 0,
    used: 0,
    guard: Vec::new(),
    blocks: Vec::new(),
    free: Vec::new(),
    rng: 1,
    free_run: false,
    ptrs: Vec::new(),
});

fn st() -> std::sync::MutexGuard<'static, State> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn next(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    s.wrapping_mul(0x2545F4914F6CDD1D) >> 16
}

pub fn init() {
    let mut s = st();
    unsafe {
        if cfg!(any(target_arch = "x86", target_arch = "x86_64")) {
            let fd = libc::memfd_create(c"arena".as_ptr(), 0);
            assert!(fd >= 0);
            assert_eq!(libc::ftruncate(fd, ARENA as _), 0);
            let map = |prot| {
                let p = libc::mmap(std::ptr::null_mut(), ARENA, prot, libc::MAP_SHARED, fd, 0);
                assert!(p != libc::MAP_FAILED);
                p as usize
            };
            s.rx = map(libc::PROT_READ | libc::PROT_EXEC);
            s.rw = map(libc::PROT_READ | libc::PROT_WRITE);
        } else {
            let p = libc::mmap(
                std::ptr::null_mut(),
                ARENA,
                libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            s.rx = p as usize;
            s.rw = p as usize;
        }
    }
}

/// Forget everything and start over with fresh random contents.
pub fn reset(seed: u64, free_run: bool) {
    let mut s = st();
    s.rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for _ in 0..4 {
        next(&mut s.rng);
    }
    s.free_run = free_run;
    s.blocks.clear();
    s.free.clear();
    s.ptrs.clear();
    s.used = 0;
    s.guard.clear();
}

unsafe fn bytes<'a>(p: usize, n: usize) -> &'a mut [u8] {
    std::slice::from_raw_parts_mut(p as *mut u8, n)
}

impl State {
    fn carve(&mut self, size: usize) -> usize {
        // reuse a released slot half of the time
        if !self.free.is_empty() && next(&mut self.rng) % 2 == 0 {
            if let Some(i) = self.free.iter().position(|f| f.1 >= size) {
                return self.free.remove(i).0;
            }
        }
        // executable code must be placed at the instruction set's granularity at least
        let skew = 32 + next(&mut self.rng) as usize % 64;
        let off = self.used + skew;
        let end = off + size + 32;
        assert!(end <= ARENA);
        let old = self.used;
        let fill: Vec<u8> = (old..end).map(|_| next(&mut self.rng) as u8).collect();
        unsafe { bytes(self.rw + old, end - old) }.copy_from_slice(&fill);
        self.guard.extend_from_slice(&fill);
        self.used = end;
        off
    }

    /// Report every byte that changed since the last look.
    pub fn diff(&mut self, log: &mut Log) {
        let t = tid();
        let mut spots = Vec::new();
        for b in self.blocks.iter_mut().filter(|b| b.live) {
            if self.free_run && b.thread != t {
                continue;
            }
            let now = unsafe { bytes(b.rx, b.size) };
            if now != &b.shadow[..] {
                let lo = (0..b.size).find(|&i| now[i] != b.shadow[i]).unwrap();
                let hi = (0..b.size).rfind(|&i| now[i] != b.shadow[i]).unwrap() + 1;
                b.shadow.copy_from_slice(now);
                spots.push((b.id, lo, hi));
            }
            if b.arena {
                let o = b.rw - self.rw;
                self.guard[o..o + b.size].copy_from_slice(now);
            }
        }
        if !self.free_run {
            let now = unsafe { bytes(self.rw, self.used) };
            if now != &self.guard[..] {
                let lo = (0..self.used).find(|&i| now[i] != self.guard[i]).unwrap();
                let hi = (0..self.used).rfind(|&i| now[i] != self.guard[i]).unwrap() + 1;
                self.guard.copy_from_slice(now);
                spots.push((-1, lo, hi));
            }
        }
        for (b, lo, hi) in spots {
            log.put(|l| {
                l.s("e", "write").n("t", t).n("b", b).n("lo", lo as i64).n("hi", hi as i64)
            });
        }
    }

    fn find(&self, addr: usize) -> (i64, i64) {
        for b in self.blocks.iter().rev() {
            if addr >= b.rx && addr < b.rx + b.size {
                return (b.id, (addr - b.rx) as i64);
            }
        }
        (0, 0)
    }

    /// Small identity for a pointer, the block it points into and the offset there.
    pub fn token(&mut self, p: *const ()) -> (i64, i64, i64) {
        let addr = p as usize;
        let i = match self.ptrs.iter().position(|&q| q == addr) {
            Some(i) => i,
            None => {
                self.ptrs.push(addr);
                self.ptrs.len() - 1
            }
        };
        // bit 0 selects the instruction set on 32-bit ARM
        let code = if cfg!(target_arch = "arm") { addr & !1 } else { addr };
        let (b, o) = self.find(code);
        (i as i64 + 1, b, o)
    }
}

/// Look for changes, then log, atomically.
pub fn event(f: impl FnOnce(&mut State, &mut Log)) {
    let _p = crate::heap::Pause::new();
    let mut log = log::lock();
    let mut s = st();
    s.diff(&mut log);
    f(&mut s, &mut log);
}

/// A handle to one of the allocators, owned by wrapper `w`.
pub struct H {
    pub w: i64,
    pub a: i64,
}

impl Drop for H {
    fn drop(&mut self) {
        let w = self.w;
        self.w = -1;
        event(|_, l| l.put(|o| o.s("e", "hdrop").n("t", tid()).n("w", w)));
    }
}

/// Requests to the built-in allocators are made equal: unequal ones can get overlapping blocks
/// (FINDINGS.txt, C18), which is not what the properties of this harness are about.
const EQUAL: usize = 1024;

/// This allocator takes memory back but always reports an error.
const SULKY: i64 = 2;

impl H {
    fn sub(&self) -> Option<Box<dyn JitAlloc>> {
        match self.a {
            // qemu-arm misses writes through the other view of a block it has executed before
            _ if cfg!(target_arch = "arm") => None,
            3 => Some(Box::new(GlobalJitAlloc)),
            4 => Some(Box::new(ThreadJitAlloc::default())),
            _ => None,
        }
    }
}

impl JitAlloc for H {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        let _p = crate::heap::Pause::new();
        let refuse = REFUSE.with(|r| r.get());
        let sub = if refuse { None } else { self.sub().map(|s| s.alloc(size.max(EQUAL))) };
        let mut out = Err(JitAllocError);
        event(|s, l| {
            let got = if refuse {
                None
            } else {
                match &sub {
                    Some(Ok((rx, rw))) => Some((*rx as usize, *rw as usize)),
                    Some(Err(_)) => None,
                    None => {
                        let off = s.carve(size);
                        Some((s.rx + off, s.rw + off))
                    }
                }
            };
            let id = s.blocks.len() as i64 + 1;
            l.put(|o| {
                o.s("e", "alloc")
                    .n("t", tid())
                    .n("a", self.a)
                    .b("ok", got.is_some())
                    .n("b", if got.is_some() { id } else { 0 })
                    .n("size", size as i64)
                    .n("rx", got.map_or(0, |g| g.0 as i64))
            });
            if let Some((rx, rw)) = got {
                let shadow = unsafe { bytes(rx, size) }.to_vec();
                s.blocks.push(Block {
                    id,
                    rx,
                    rw,
                    size,
                    live: true,
                    arena: sub.is_none(),
                    thread: tid(),
                    shadow,
                });
                out = Ok((rx as *const u8, rw as *mut u8));
            }
        });
        out
    }

    unsafe fn release(&self, rx_ptr: *const u8) -> Result<(), JitAllocError> {
        let _p = crate::heap::Pause::new();
        let mut ok = true;
        // logged before the memory is really given back, so that the next owner comes later
        event(|s, l| {
            let addr = rx_ptr as usize;
            let (b, o) = s.find(addr);
            l.put(|w| {
                w.s("e", "release")
                    .n("t", tid())
                    .n("a", self.a)
                    .n("b", b)
                    .b("exact", b != 0 && o == 0)
                    .b("ok", self.a != SULKY)
            });
            match s.blocks.iter_mut().rev().find(|k| k.id == b) {
                Some(k) if k.live && o == 0 => {
                    k.live = false;
                    if k.arena {
                        let trap = if cfg!(any(target_arch = "x86", target_arch = "x86_64")) {
                            0xCC
                        } else {
                            0xDE
                        };
                        let (rw, size) = (k.rw, k.size);
                        bytes(rw, size).fill(trap);
                        let off = rw - s.rw;
                        s.guard[off..off + size].fill(trap);
                        s.free.push((off, size));
                    }
                }
                _ => ok = false,
            }
        });
        if !ok {
            return Err(JitAllocError);
        }
        match self.sub() {
            Some(s) => {
                let r = s.release(rx_ptr);
                if r.is_err() {
                    event(|_, l| l.put(|w| w.s("e", "release_error").n("t", tid())));
                }
                r
            }
            None if self.a == SULKY => Err(JitAllocError),
            None => Ok(()),
        }
    }

    unsafe fn protect_jit_memory(&self, ptr: *const u8, size: usize, access: ProtectJitAccess) {
        let _p = crate::heap::Pause::new();
        event(|s, l| {
            let (b, o) = s.find(ptr as usize);
            l.put(|w| {
                w.s("e", "prot")
                    .n("t", tid())
                    .n("a", self.a)
                    .n("b", b)
                    .n("lo", o)
                    .n("hi", o.saturating_add(size.min(1 << 24) as i64))
                    .s("acc", if access == ProtectJitAccess::ReadWrite { "rw" } else { "rx" })
            });
        });
        if let Some(s) = self.sub() {
            s.protect_jit_memory(ptr, size, access)
        }
    }

    unsafe fn flush_instruction_cache(&self, rx_ptr: *const u8, size: usize) {
        let _p = crate::heap::Pause::new();
        event(|s, l| {
            let (b, o) = s.find(rx_ptr as usize);
            l.put(|w| {
                w.s("e", "flush")
                    .n("t", tid())
                    .n("a", self.a)
                    .n("b", b)
                    .n("lo", o)
                    .n("hi", o.saturating_add(size.min(1 << 24) as i64))
            });
        });
        match self.sub() {
            Some(s) => s.flush_instruction_cache(rx_ptr, size),
            None => {
                // the arena is really executed, so its cache must really be flushed
                #[cfg(target_arch = "arm")]
                libc::syscall(0x0f0002, rx_ptr, rx_ptr.byte_add(size), 0);
                #[cfg(target_arch = "aarch64")]
                GlobalJitAlloc.flush_instruction_cache(rx_ptr, size);
            }
        }
    }
}
