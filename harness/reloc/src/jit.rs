//! Blocks of executable memory in the places a case asks for.
use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};
use std::sync::Mutex;

const POOL: usize = 1 << 16;

struct Pools {
    // (rx, rw) per distance class
    pool: Vec<(usize, usize)>,
}
static POOLS: Mutex<Option<Pools>> = Mutex::new(None);
#[repr(align(4096))]
struct Near(#[allow(dead_code)] [u8; POOL]);
static mut NEAR: Near = Near([0; POOL]);

fn pools() -> Vec<(usize, usize)> {
    let mut g = POOLS.lock().unwrap();
    g.get_or_insert_with(|| unsafe {
        let rwx = libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC;
        let mut pool = vec![];
        // 0: next to the program, one view
        let near = &raw mut NEAR as usize;
        assert_eq!(libc::mprotect(near as _, POOL, rwx), 0);
        pool.push((near, near));
        // 1, 2: wherever the system puts it / far away, one view
        let hints: [usize; 2] = if cfg!(target_pointer_width = "64") { [0, 0x1234_0000_0000u64 as usize] } else { [0, 0x6000_0000] };
        for h in hints {
            let p = libc::mmap(h as _, POOL, rwx, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            pool.push((p as usize, p as usize));
        }
        // 3: two views of the same memory
        if cfg!(any(target_arch = "x86", target_arch = "x86_64")) {
            let fd = libc::memfd_create(c"pool".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, POOL as _) == 0);
            let map = |prot| libc::mmap(std::ptr::null_mut(), POOL, prot, libc::MAP_SHARED, fd, 0) as usize;
            pool.push((map(libc::PROT_READ | libc::PROT_EXEC), map(libc::PROT_READ | libc::PROT_WRITE)));
        } else {
            pool.push(pool[1]);
        }
        Pools { pool }
    })
    .pool
    .clone()
}

pub struct Jit {
    class: usize,
    skew: usize,
    fill: u64,
    // writable copy that replaces the code when it is made executable: (offset, bytes)
    staged: Option<(usize, Mutex<Vec<u64>>)>,
}

impl Jit {
    /// place: distance class + 4 * skew in bytes (below 4096) + 2^14 * fill pattern (0..3)
    /// + 2^16 * staged (with class 3) + 2^17 * offset of the writable copy (0..63)
    pub fn new(place: u64) -> Jit {
        let class = (place & 3) as usize;
        Jit {
            class,
            skew: (place >> 2 & 0xfff) as usize,
            fill: place >> 14,
            staged: (class == 3 && place >> 16 & 1 == 1).then(|| ((place >> 17 & 63) as usize, Mutex::new(vec![0; POOL / 8]))),
        }
    }
}

// the block handed out last: (rw view of its pool, offset, size)
static LAST: Mutex<(usize, usize, usize)> = Mutex::new((0, 0, 0));

/// The memory around the block belongs to others, who now change it.
pub fn change_neighbours() {
    let (rw, at, size) = *LAST.lock().unwrap();
    for i in (at.saturating_sub(64)..at).chain(at + size..at + size + 64) {
        let p = (rw + i) as *mut u8;
        unsafe { p.write(!p.read()) };
    }
    let (rx, _) = pools().into_iter().find(|p| p.1 == rw).unwrap();
    crate::asm::sync(rx, at + size + 64);
}

impl JitAlloc for Jit {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        let (rx, rw) = pools()[self.class];
        assert!(self.skew + size + 64 < POOL);
        *LAST.lock().unwrap() = (rw, self.skew, size);
        // whatever was there before
        for i in 0..self.skew + size + 64 {
            let b = match self.fill & 3 {
                0 => 0,
                1 => 0xff,
                2 => 0xcc,
                _ => ((i as u64).wrapping_mul(self.fill * 2 + 1) >> 3) as u8,
            };
            unsafe { ((rw + i) as *mut u8).write(b) };
        }
        if let Some((o, copy)) = &self.staged {
            let p = copy.lock().unwrap().as_mut_ptr() as usize;
            return Ok(((rx + self.skew) as *const u8, (p + o) as *mut u8));
        }
        Ok(((rx + self.skew) as *const u8, (rw + self.skew) as *mut u8))
    }
    unsafe fn release(&self, _: *const u8) -> Result<(), JitAllocError> {
        Ok(())
    }
    unsafe fn protect_jit_memory(&self, p: *const u8, size: usize, access: ProtectJitAccess) {
        if let (Some((o, copy)), ProtectJitAccess::ReadExecute) = (&self.staged, access) {
            let (rx, rw) = pools()[self.class];
            let at = p as usize - rx;
            let from = copy.lock().unwrap().as_ptr() as usize + o + at - self.skew;
            std::ptr::copy_nonoverlapping(from as *const u8, (rw + at) as *mut u8, size);
        }
    }
    unsafe fn flush_instruction_cache(&self, p: *const u8, size: usize) {
        crate::asm::sync(p as usize, size);
    }
}

/// Address of the closure of the wrapper made last (a box of a size nothing else has).
pub fn last_closure(_: &crate::Bare) -> usize {
    crate::heap::LAST.load(std::sync::atomic::Ordering::Relaxed)
}
