//! Histories on the library's own allocators.
#[cfg(feature = "custom")]
pub fn run(_: &[Vec<Vec<&str>>], _: bool) {
    std::process::exit(3);
}

#[cfg(not(feature = "custom"))]
pub use builtin::{mapped, run};

#[cfg(not(feature = "custom"))]
mod builtin {
    use crate::log;
    #[cfg(feature = "builtin")]
    use closure_ffi::jit_alloc::ThreadJitAlloc;
    use closure_ffi::jit_alloc::{GlobalJitAlloc, JitAlloc, JitAllocError, ProtectJitAccess};
    use std::cell::RefCell;
    use std::collections::HashMap;
    use std::sync::mpsc::{channel, Sender};
    use std::sync::Mutex;

    #[derive(Clone, Copy)]
    struct Block {
        b: i64,
        own: i64,
        rx: usize,
        rw: usize,
        size: usize,
        v: i64,
    }
    static BLOCKS: Mutex<Option<HashMap<(i64, i64), Block>>> = Mutex::new(None);
    static NEXT: Mutex<i64> = Mutex::new(0);

    fn alloc(own: i64, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        match own {
            0 => GlobalJitAlloc.alloc(size),
            #[cfg(feature = "builtin")]
            _ => ThreadJitAlloc::default().alloc(size),
            #[cfg(not(feature = "builtin"))]
            _ => unreachable!(),
        }
    }
    fn release(own: i64, p: usize) -> Result<(), JitAllocError> {
        unsafe {
            match own {
                0 => GlobalJitAlloc.release(p as *const u8),
                #[cfg(feature = "builtin")]
                _ => ThreadJitAlloc::default().release(p as *const u8),
                #[cfg(not(feature = "builtin"))]
                _ => unreachable!(),
            }
        }
    }
    fn protect(own: i64, p: usize, n: usize, a: ProtectJitAccess) {
        unsafe {
            match own {
                0 => GlobalJitAlloc.protect_jit_memory(p as *const u8, n, a),
                #[cfg(feature = "builtin")]
                _ => ThreadJitAlloc::default().protect_jit_memory(p as *const u8, n, a),
                #[cfg(not(feature = "builtin"))]
                _ => unreachable!(),
            }
        }
    }
    fn flush(own: i64, p: usize, n: usize) {
        unsafe {
            match own {
                0 => GlobalJitAlloc.flush_instruction_cache(p as *const u8, n),
                #[cfg(feature = "builtin")]
                _ => ThreadJitAlloc::default().flush_instruction_cache(p as *const u8, n),
                #[cfg(not(feature = "builtin"))]
                _ => unreachable!(),
            }
        }
    }

    fn byte(b: i64, v: i64, i: usize) -> u8 {
        let mut x = (b as u64) << 40 ^ (v as u64) << 20 ^ i as u64;
        x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        (x >> 32) as u8
    }
    fn fill(x: &mut Block, v: i64) {
        protect(x.own, x.rx, x.size, ProtectJitAccess::ReadWrite);
        for i in 0..x.size {
            unsafe { ((x.rw + i) as *mut u8).write_volatile(byte(x.b, v, i)) };
        }
        protect(x.own, x.rx, x.size, ProtectJitAccess::ReadExecute);
        flush(x.own, x.rx, x.size);
        x.v = v;
        let b = x.b;
        log::emit(|w| w.s("e", "fill").n("b", b).n("v", v));
    }
    fn look(x: &Block) {
        let seen = |p: usize| {
            (0..x.size).all(|i| unsafe { ((p + i) as *const u8).read_volatile() } == byte(x.b, x.v, i))
        };
        let v = if seen(x.rx) && seen(x.rw) { x.v } else { -1 };
        log::emit(|w| w.s("e", "look").n("b", x.b).n("v", v));
    }
    fn give(t: i64, x: Block) {
        log::emit(|w| w.s("e", "give").n("t", t).n("b", x.b));
        let ok = release(x.own, x.rx).is_ok();
        log::emit(|w| w.s("e", "gave").b("ok", ok));
    }

    /// KB of executable memory that does not belong to a program or library
    pub fn mapped() -> i64 {
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
        let mut kb = 0;
        for l in maps.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            let name = f.get(5).copied().unwrap_or("");
            let ours = name.is_empty() || name.contains("memfd") || name.contains("shm") || l.contains("(deleted)");
            if f[1].contains('x') && ours {
                let (a, b) = f[0].split_once('-').unwrap();
                kb += (u64::from_str_radix(b, 16).unwrap() - u64::from_str_radix(a, 16).unwrap()) / 1024;
            }
        }
        kb as i64
    }

    fn command(t: i64, f: &[String], base: i64) {
        let (op, own, of, slot, size) = (
            &*f[0],
            if f[2] == "global" { 0 } else { t },
            f[3].parse::<i64>().unwrap(),
            f[4].parse::<i64>().unwrap(),
            f[5].parse::<usize>().unwrap(),
        );
        let key = (of, slot);
        let get = || BLOCKS.lock().unwrap().as_ref().unwrap()[&key];
        let set = |x: Block| {
            BLOCKS.lock().unwrap().as_mut().unwrap().insert(key, x);
        };
        match op {
            "take" => {
                let r = alloc(own, size);
                let mut n = NEXT.lock().unwrap();
                *n += 1;
                let b = *n;
                drop(n);
                let Ok((rx, rw)) = r else {
                    log::emit(|w| w.s("e", "take").b("ok", false).n("t", t).n("own", own).n("size", size as i64));
                    return;
                };
                let mut x = Block { b, own, rx: rx as usize, rw: rw as usize, size, v: 0 };
                log::emit(|w| {
                    w.s("e", "take").b("ok", true).n("t", t).n("own", own).n("b", b).n("size", size as i64);
                    w.n("rx", rx as usize as i64).n("rw", rw as usize as i64)
                });
                fill(&mut x, 1);
                look(&x);
                set(x);
            }
            "fill" => {
                let mut x = get();
                fill(&mut x, size as i64 + 2);
                set(x);
            }
            "look" => look(&get()),
            "give" => {
                let x = BLOCKS.lock().unwrap().as_mut().unwrap().remove(&key).unwrap();
                look(&x);
                give(t, x);
            }
            "churn" => {
                let rounds = (600_000 / size).clamp(16, 3_000);
                let mut ok = true;
                for _ in 0..rounds {
                    match alloc(own, size) {
                        Ok((rx, rw)) => {
                            unsafe {
                                rw.write_volatile(7);
                                rw.add(size - 1).write_volatile(7);
                            }
                            ok &= release(own, rx as usize).is_ok();
                        }
                        Err(_) => ok = false,
                    }
                }
                log::emit(|w| w.s("e", "churn").b("ok", ok).n("own", own).n("size", size as i64));
                let kb = mapped() - base;
                log::emit(|w| w.s("e", "mapped").n("kb", kb));
            }
            _ => std::process::exit(3),
        }
    }

    /// Blocks that are released, and wrappers that are dropped, while their thread is ending.
    struct Late(#[allow(dead_code)] i64);
    impl Drop for Late {
        fn drop(&mut self) {
            let own = self.0;
            let r = alloc(own, 64);
            let s = match r {
                Ok((rx, _)) => release(own, rx as usize).is_ok(),
                Err(_) => true,
            };
            log::emit(|w| w.s("e", "late").b("ok", s));
        }
    }
    thread_local! {
        static EARLY: RefCell<Option<Late>> = const { RefCell::new(None) };
        #[cfg(feature = "builtin")]
        static WRAPPER: RefCell<Option<closure_ffi::BareFn<'static, unsafe extern "C" fn(u32) -> u32, ThreadJitAlloc>>> =
            const { RefCell::new(None) };
    }
    fn endings(owners: &[i64]) {
        for &own in owners {
            std::thread::spawn(move || {
                EARLY.with(|e| *e.borrow_mut() = Some(Late(own)));
                let (rx, _) = alloc(own, 100).unwrap();
                release(own, rx as usize).unwrap();
            })
            .join()
            .unwrap();
        }
        #[cfg(feature = "builtin")]
        std::thread::spawn(|| {
            WRAPPER.with(|w| {
                let k = std::hint::black_box(3u32);
                *w.borrow_mut() = Some(closure_ffi::BareFn::new_in(move |x: u32| x + k, ThreadJitAlloc::default()));
            });
        })
        .join()
        .unwrap();
        log::emit(|w| w.s("e", "late").b("ok", true));
    }

    pub fn run(programs: &[Vec<Vec<&str>>], crowd: bool) {
        *BLOCKS.lock().unwrap() = Some(HashMap::new());
        let base = mapped();
        let (done, over) = channel::<()>();
        // the threads live as long as the run: a thread's allocator keeps what it has mapped
        let workers: Vec<Sender<Vec<Vec<String>>>> = (1..=3)
            .map(|t| {
                let (send, recv) = channel::<Vec<Vec<String>>>();
                let done = done.clone();
                std::thread::spawn(move || {
                    for cmds in recv {
                        for f in cmds {
                            let r = std::panic::catch_unwind(|| command(t, &f, base));
                            if r.is_err() {
                                log::emit(|w| w.s("e", "panic"));
                                std::process::exit(4);
                            }
                        }
                        done.send(()).unwrap();
                    }
                });
                send
            })
            .collect();
        for (i, p) in programs.iter().enumerate() {
            log::emit(|w| w.s("e", "reset").n("i", i as i64));
            let own = |f: &Vec<&str>| f.iter().map(|s| s.to_string()).collect::<Vec<_>>();
            if crowd {
                for t in 0..3 {
                    let mine = p.iter().filter(|f| f[1] == (t + 1).to_string()).map(own).collect();
                    workers[t].send(mine).unwrap();
                }
                for _ in 0..3 {
                    over.recv().unwrap();
                }
            } else {
                for f in p {
                    workers[f[1].parse::<usize>().unwrap() - 1].send(vec![own(f)]).unwrap();
                    over.recv().unwrap();
                }
            }
        }
        log::emit(|w| w.s("e", "reset").n("i", programs.len() as i64));
        for size in [0, usize::MAX, usize::MAX / 2] {
            let none = alloc(0, size).is_err();
            log::emit(|w| w.s("e", if none { "nothing" } else { "bogus" }));
        }
        endings(if cfg!(feature = "builtin") { &[0, 1] } else { &[0] });
    }
}
