//! Requests through handles to recording allocators.
use crate::log;
use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};
use closure_ffi::{BareFn, BareFnMut, BareFnOnce};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::mem::ManuallyDrop;
use std::ops::Deref;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, LazyLock, Mutex, RwLock};

thread_local! {
    static TID: Cell<i64> = const { Cell::new(1) };
    // how the next request is answered
    static ANSWER: Cell<&'static str> = const { Cell::new("ok") };
    static COUNT: Cell<usize> = const { Cell::new(0) };
}
static REAL: LazyLock<Mutex<HashMap<usize, usize>>> = LazyLock::new(Default::default);

#[derive(Clone)]
pub struct Rec(pub i64);

fn quoted(xs: &[String]) -> String {
    format!("[{}]", xs.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","))
}
fn put(e: &str, extra: &[(&str, String)]) {
    let t = TID.get();
    log::emit(|w| {
        w.s("e", e).n("t", t);
        for (k, v) in extra {
            w.0.push_str(&format!(",\"{k}\":{v}"));
        }
        w
    });
}
fn hex(p: *const u8) -> String {
    format!("{:x}", p as usize)
}
fn access(a: ProtectJitAccess) -> String {
    match a {
        ProtectJitAccess::ReadWrite => "rw".into(),
        ProtectJitAccess::ReadExecute => "rx".into(),
    }
}
fn answer(r: &Result<(*const u8, *mut u8), JitAllocError>) -> Vec<String> {
    match r {
        Ok((x, w)) => vec!["ok".into(), hex(*x), hex(*w)],
        Err(_) => vec!["err".into()],
    }
}
fn plain(r: &Result<(), JitAllocError>) -> Vec<String> {
    vec![if r.is_ok() { "ok" } else { "err" }.into()]
}

impl Rec {
    fn got(&self, op: &str, arg: &[String], ans: &[String]) {
        put(
            "got",
            &[("a", self.0.to_string()), ("op", format!("\"{op}\"")), ("arg", quoted(arg)), ("ans", quoted(ans))],
        );
    }
}

impl JitAlloc for Rec {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        let n = COUNT.get() + 1;
        COUNT.set(n);
        let r = match ANSWER.get() {
            "ok" => Ok(((0x1000 * n + 1) as *const u8, (0x10_0000 + 0x1000 * n) as *mut u8)),
            "same" => Ok(((0x2000 * n) as *const u8, (0x2000 * n) as *mut u8)),
            "real" => unsafe {
                let len = size + 4096;
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    len,
                    libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                assert!(p != libc::MAP_FAILED);
                REAL.lock().unwrap().insert(p as usize, len);
                Ok((p as *const u8, p as *mut u8))
            },
            _ => Err(JitAllocError),
        };
        self.got("alloc", &[size.to_string()], &answer(&r));
        r
    }
    unsafe fn release(&self, p: *const u8) -> Result<(), JitAllocError> {
        let r = match ANSWER.get() {
            "real" => match REAL.lock().unwrap().remove(&(p as usize)) {
                Some(len) => {
                    libc::munmap(p as _, len);
                    Ok(())
                }
                None => Err(JitAllocError),
            },
            "ok" | "same" => Ok(()),
            _ => Err(JitAllocError),
        };
        self.got("release", &[hex(p)], &plain(&r));
        r
    }
    unsafe fn protect_jit_memory(&self, p: *const u8, size: usize, a: ProtectJitAccess) {
        self.got("protect", &[hex(p), size.to_string(), access(a)], &["unit".into()]);
    }
    unsafe fn flush_instruction_cache(&self, p: *const u8, size: usize) {
        #[cfg(target_arch = "aarch64")]
        core::arch::asm!("dsb ish", "isb");
        self.got("flush", &[hex(p), size.to_string()], &["unit".into()]);
    }
}

pub static RECS: [Rec; 2] = [Rec(1), Rec(2)];
static LOCKS: [Mutex<Rec>; 2] = [Mutex::new(Rec(1)), Mutex::new(Rec(2))];
static RW: [RwLock<Rec>; 2] = [RwLock::new(Rec(1)), RwLock::new(Rec(2))];
static LAZY: [LazyLock<Rec>; 2] = [LazyLock::new(|| Rec(1)), LazyLock::new(|| Rec(2))];

/// A smart pointer of our own.
struct Pick(usize);
impl Deref for Pick {
    type Target = Rec;
    fn deref(&self) -> &Rec {
        &RECS[self.0]
    }
}

#[cfg(all(feature = "custom", not(feature = "block")))]
mod global {
    static GLOBAL: super::Rec = super::Rec(1);
    closure_ffi::jit_alloc::global_jit_alloc!(GLOBAL);
}
#[cfg(feature = "block")]
mod global {
    closure_ffi::jit_alloc::global_jit_alloc!(unsafe {
        static GLOBAL: std::sync::OnceLock<super::Rec> = std::sync::OnceLock::new();
        GLOBAL.get_or_init(|| super::Rec(1))
    });
}

struct Cmd<'a> {
    a: i64,
    op: &'a str,
    size: usize,
    ans: &'static str,
    k: u32,
    ptr: *const u8,
    acc: ProtectJitAccess,
}

fn parse<'a>(f: &[&'a str]) -> Cmd<'a> {
    Cmd {
        a: if f[1].ends_with("global") { 1 } else { f[2].parse().unwrap() },
        k: f[1].len() as u32 + 10,
        op: f[3],
        size: match f[4] {
            "max" => usize::MAX,
            n => n.parse().unwrap(),
        },
        ans: match f[5] {
            "ok" => "ok",
            "same" => "same",
            _ => "err",
        },
        ptr: match f[6] {
            "null" => 0usize,
            "one" => 1,
            "mid" => 0x1234_5679,
            _ => usize::MAX,
        } as *const u8,
        acc: match f[7] {
            "rw" => ProtectJitAccess::ReadWrite,
            _ => ProtectJitAccess::ReadExecute,
        },
    }
}

fn request<J: JitAlloc>(h: J, c: &Cmd) {
    if c.op == "use" {
        ANSWER.set("real");
        put("use_b", &[("a", c.a.to_string())]);
        let k = std::hint::black_box(c.a as u32 + c.k);
        let r = match k % 3 {
            0 => unsafe { BareFn::<unsafe extern "C" fn(u32) -> u32, _>::new_in(move |x: u32| x * 2 + k, h).bare()(5) },
            1 => {
                let mut n = k;
                let f = BareFnMut::<unsafe extern "C" fn(u32) -> u32, _>::new_in(
                    move |x: u32| {
                        n += x;
                        n + 5
                    },
                    h,
                );
                unsafe { f.bare()(5) }
            }
            _ => {
                let s = vec![k; 3];
                drop(BareFnOnce::<unsafe extern "C" fn(u32) -> u32, _>::new_in(move |x: u32| x * 2 + s[1], h));
                k + 10
            }
        };
        put("use_e", &[("r", r.to_string()), ("want", (k + 10).to_string())]);
        return;
    }
    ANSWER.set(c.ans);
    let arg = match c.op {
        "alloc" => vec![c.size.to_string()],
        "release" => vec![hex(c.ptr)],
        "protect" => vec![hex(c.ptr), c.size.to_string(), access(c.acc)],
        _ => vec![hex(c.ptr), c.size.to_string()],
    };
    put("req", &[("a", c.a.to_string()), ("op", format!("\"{}\"", c.op)), ("arg", quoted(&arg))]);
    let ans = unsafe {
        match c.op {
            "alloc" => answer(&JitAlloc::alloc(&h, c.size)),
            "release" => plain(&JitAlloc::release(&h, c.ptr)),
            "protect" => {
                JitAlloc::protect_jit_memory(&h, c.ptr, c.size, c.acc);
                vec!["unit".into()]
            }
            _ => {
                JitAlloc::flush_instruction_cache(&h, c.ptr, c.size);
                vec!["unit".into()]
            }
        }
    };
    put("ret", &[("ans", quoted(&ans))]);
}

fn command(f: &[&str]) {
    let c = parse(f);
    let a = c.a as usize - 1;
    let rec = || Rec(c.a);
    match f[1] {
        "direct" => request(rec(), &c),
        "ref" => request(&RECS[a], &c),
        "refref" => request(&&RECS[a], &c),
        "mut" => request(&mut rec(), &c),
        "box" => request(Box::new(rec()), &c),
        "rc" => request(Rc::new(rec()), &c),
        "arc" => request(Arc::new(rec()), &c),
        "boxbox" => request(Box::new(Box::new(rec())), &c),
        "boxref" => request(Box::new(&RECS[a]), &c),
        "arcbox" => request(Arc::new(Box::new(rec())), &c),
        "refrc" => request(&Rc::new(rec()), &c),
        "refarcrefbox" => request(&Arc::new(&Box::new(rec())), &c),
        "pin" => request(Pin::new(&rec()), &c),
        "pinbox" => request(Box::pin(rec()), &c),
        "cow" => request(Cow::Borrowed(&RECS[a]), &c),
        "cowned" => request(Cow::<Rec>::Owned(rec()), &c),
        "cell" => request(RefCell::new(rec()).borrow(), &c),
        "cellmut" => request(RefCell::new(rec()).borrow_mut(), &c),
        "guard" => request(LOCKS[a].lock().unwrap(), &c),
        "rwguard" => request(RW[a].read().unwrap(), &c),
        "lazy" => request(&LAZY[a], &c),
        "manual" => request(ManuallyDrop::new(rec()), &c),
        "assert" => request(AssertUnwindSafe(rec()), &c),
        "pick" => request(Pick(a), &c),
        "refpick" => request(&Pick(a), &c),
        #[cfg(feature = "custom")]
        "global" => request(closure_ffi::jit_alloc::GlobalJitAlloc, &c),
        #[cfg(feature = "custom")]
        "refglobal" => request(&closure_ffi::jit_alloc::GlobalJitAlloc, &c),
        #[cfg(feature = "custom")]
        "boxglobal" => request(Box::new(closure_ffi::jit_alloc::GlobalJitAlloc), &c),
        h => panic!("no handle {h}"),
    }
}

pub fn run(p: &[Vec<&str>], free: bool) {
    if !free {
        for f in p {
            TID.set(f[0].parse().unwrap());
            command(f);
        }
        TID.set(1);
        return;
    }
    std::thread::scope(|s| {
        for t in ["1", "2", "3"] {
            s.spawn(move || {
                TID.set(t.parse().unwrap());
                for f in p.iter().filter(|f| f[0] == t) {
                    command(f);
                }
            });
        }
    });
}
