//! Threads that use wrappers of the global allocator at the same time.
#[cfg(feature = "custom")]
pub fn run(_: &[Vec<Vec<&str>>], _: bool) {
    std::process::exit(3);
}

#[cfg(not(feature = "custom"))]
pub use builtin::run;

#[cfg(not(feature = "custom"))]
mod builtin {
    use crate::{blocks, log};
    use closure_ffi::jit_alloc::GlobalJitAlloc;
    use closure_ffi::{cc, thunk_factory, BareFnMutSync, BareFnSync};
    use std::cell::Cell;
    use std::collections::HashMap;
    use std::hint::black_box;
    use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
    use std::sync::{Arc, Barrier, Condvar, Mutex};

    type F = unsafe extern "C" fn(u32) -> u32;

    enum Wr {
        Fn(BareFnSync<'static, F>),
        Mut(BareFnMutSync<'static, F>),
    }
    impl Wr {
        fn bare(&self) -> F {
            match self {
                Wr::Fn(w) => w.bare(),
                Wr::Mut(w) => w.bare(),
            }
        }
        /// n calls; how many of them went wrong
        fn call(&self, id: u32, n: u32) -> i64 {
            let f = self.bare();
            (0..n).filter(|&x| unsafe { f(x) } != x ^ id).count() as i64
        }
    }

    thread_local! {
        static ME: Cell<i64> = const { Cell::new(0) };
    }
    static ID: AtomicI64 = AtomicI64::new(1);
    /// calls of wrappers made by closures that went wrong
    static BAD: AtomicI64 = AtomicI64::new(0);

    /// What every closure owns.
    struct Tok {
        w: i64,
        id: u32,
        runs: AtomicI64,
        /// its body and destructor use further wrappers
        deep: Option<bool>,
    }
    impl Tok {
        fn inner(&self) {
            if let Some(mutable) = self.deep {
                match make(0, 1, mutable, None) {
                    Some((id, w)) => BAD.fetch_add(w.call(id, 2), SeqCst),
                    None => BAD.fetch_add(1, SeqCst),
                };
            }
        }
        fn hit(&self, x: u32) -> u32 {
            self.runs.fetch_add(1, SeqCst);
            self.inner();
            x ^ self.id
        }
    }
    impl Drop for Tok {
        fn drop(&mut self) {
            self.inner();
            if self.w != 0 {
                let (w, n) = (self.w, self.runs.load(SeqCst));
                log::emit(|l| l.s("e", "destroyed").n("t", ME.get()).n("w", w).n("n", n));
            }
        }
    }

    fn make(w: i64, how: i64, mutable: bool, deep: Option<bool>) -> Option<(u32, Wr)> {
        let id = ID.fetch_add(1, SeqCst) as u32;
        let tok = Tok { w, id: black_box(id), runs: AtomicI64::new(0), deep };
        let packed = how == 3;
        Some((
            id,
            if mutable {
                let f = move |x: u32| -> u32 { tok.hit(x) };
                Wr::Mut(match how {
                    0 => BareFnMutSync::new(f),
                    1 => BareFnMutSync::try_with_cc_in(cc::C, f, GlobalJitAlloc).ok()?,
                    _ if packed => BareFnMutSync::with_thunk(thunk_factory::make_mut_send_sync::<F, _>(
                        move |(x,): (u32,)| f(x),
                    )),
                    _ => BareFnMutSync::with_cc(cc::C, f),
                })
            } else {
                let f = move |x: u32| -> u32 { tok.hit(x) };
                Wr::Fn(match how {
                    0 => BareFnSync::new(f),
                    1 => BareFnSync::try_with_cc_in(cc::C, f, GlobalJitAlloc).ok()?,
                    _ if packed => {
                        BareFnSync::with_thunk(thunk_factory::make_send_sync::<F, _>(move |(x,): (u32,)| f(x)))
                    }
                    _ => BareFnSync::with_cc(cc::C, f),
                })
            },
        ))
    }

    type Held = Arc<(u32, Wr)>;
    /// wrappers that are on their way (by the number of the hand-over) or shared (by their own)
    static TABLE: Mutex<Option<HashMap<i64, Held>>> = Mutex::new(None);
    static CHANGED: Condvar = Condvar::new();
    fn put(w: i64, h: Held) {
        TABLE.lock().unwrap().as_mut().unwrap().insert(w, h);
        CHANGED.notify_all();
    }
    fn wait<T>(f: impl Fn(&mut HashMap<i64, Held>) -> Option<T>) -> T {
        let mut t = TABLE.lock().unwrap();
        loop {
            if let Some(x) = f(t.as_mut().unwrap()) {
                return x;
            }
            t = CHANGED.wait(t).unwrap();
        }
    }

    fn command(f: &[String], mine: &mut HashMap<i64, Held>, mutable: bool) {
        let t = ME.get();
        let n = |i: usize| f[i].parse::<i64>().unwrap();
        let (op, w, k) = (&*f[0], n(2), n(3));
        let note = |e: &str| {
            log::emit(|l| l.s("e", e).n("t", t).n("w", w));
        };
        match op {
            "make" | "deep" => {
                let r = make(w, k, mutable, (op == "deep").then_some(mutable));
                let p = r.as_ref().map_or(0, |r| r.1.bare() as usize as i64);
                log::emit(|l| l.s("e", "made").n("t", t).n("w", w).b("ok", r.is_some()).n("p", p));
                if let Some(r) = r {
                    mine.insert(w, Arc::new(r));
                }
            }
            "call" => {
                let h = match mine.get(&w) {
                    Some(h) => h.clone(),
                    None => wait(|m| m.get(&w).cloned()),
                };
                let bad = h.1.call(h.0, k as u32) + BAD.swap(0, SeqCst);
                // a shared wrapper must not be dropped by whoever called it last
                drop(h);
                log::emit(|l| l.s("e", "called").n("t", t).n("w", w).n("n", k).n("bad", bad));
            }
            "drop" => {
                let h = Arc::into_inner(mine.remove(&w).unwrap()).unwrap();
                note("going");
                drop(h);
                note("gone");
            }
            "pass" => {
                let h = mine.remove(&w).unwrap();
                note("passed");
                put(k, h);
            }
            "share" => {
                let h = mine.remove(&w).unwrap();
                note("shared");
                put(k, h);
            }
            "take" => {
                let h = wait(|m| m.remove(&k));
                note("got");
                mine.insert(w, h);
            }
            "churn" => {
                let mut bad = 0;
                for i in 0..k * 4 {
                    match make(0, i % 4, mutable, None) {
                        Some((id, w)) => bad += w.call(id, 2),
                        None => bad += 1,
                    }
                }
                log::emit(|l| l.s("e", "churned").n("t", t).n("bad", bad));
            }
            _ => std::process::exit(3),
        }
    }

    fn part(t: i64, cmds: &[Vec<String>], mutable: bool) {
        ME.set(t);
        let mut mine = HashMap::new();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for f in cmds {
                command(f, &mut mine, mutable);
            }
        }));
        if r.is_err() {
            log::emit(|w| w.s("e", "panic"));
            std::process::exit(4);
        }
    }

    pub fn run(programs: &[Vec<Vec<&str>>], mutable: bool) {
        *TABLE.lock().unwrap() = Some(HashMap::new());
        let base = blocks::mapped();
        for (i, p) in programs.iter().enumerate() {
            log::emit(|w| w.s("e", "reset").n("i", i as i64));
            let of = |t: i64| -> Vec<Vec<String>> {
                let mine = p.iter().filter(|f| f[1] == t.to_string());
                mine.map(|f| f.iter().map(|s| s.to_string()).collect()).collect()
            };
            let gate = Arc::new(Barrier::new(4));
            let threads: Vec<_> = (1..=4)
                .map(|t| {
                    let (cmds, gate) = (of(t), gate.clone());
                    std::thread::spawn(move || {
                        gate.wait();
                        part(t, &cmds, mutable)
                    })
                })
                .collect();
            for t in threads {
                t.join().unwrap();
            }
            part(0, &of(0), mutable);
            let kb = blocks::mapped() - base;
            log::emit(|w| w.s("e", "mapped").n("kb", kb));
        }
        log::emit(|w| w.s("e", "reset").n("i", programs.len() as i64));
    }
}
