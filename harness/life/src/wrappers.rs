//! Every kind of wrapper behind one object-safe interface.
use crate::heap;
use crate::jit::{event, tid, H};
use crate::script;
use closure_ffi::traits::{Any, FnMutThunk, FnOnceThunk, FnPtr, FnThunk, ToBoxedDyn};
use closure_ffi::{
    cc, BareFnAny, BareFnMutAny, BareFnOnceAny, UntypedBareFn, UntypedBareFnMut, UntypedBareFnOnce,
};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

/// The by-value argument of every call; its destruction is an event.
#[repr(C)]
pub struct Tok {
    pub x: u32,
    pub y: u32,
}
impl Drop for Tok {
    fn drop(&mut self) {
        let x = if self.y == !self.x { self.x as i64 } else { -1 };
        self.y = 0;
        event(|_, l| l.put(|o| o.s("e", "tok").n("t", tid()).n("x", x)));
    }
}

pub type Sig = unsafe extern "C-unwind" fn(Tok) -> u64;
pub type SigC = unsafe extern "C" fn(Tok) -> u64;

/// A calling convention: its name, whether it permits unwinding, and how to call through it.
pub struct Conv {
    pub name: &'static str,
    pub uw: bool,
    pub call: unsafe fn(Ptr, Tok) -> u64,
    ctor: fn(&Spec) -> (Made, i64),
}
/// The ones with all capture sizes and storages; the others have the storage of shared closures only.
const COMMON: [Conv; 2] = [
    Conv { name: "C", uw: false, call: |p, t| unsafe { std::mem::transmute::<Ptr, SigC>(p)(t) }, ctor: make_common },
    Conv { name: "C-unwind", uw: true, call: |p, t| unsafe { std::mem::transmute::<Ptr, Sig>(p)(t) }, ctor: make_common },
];

// ------------------------------------------------------------------ captured state

pub trait State: Send + Sync + 'static {
    /// the closure's identity; 0 if the captured data is damaged
    fn id(&self) -> i64;
    /// number of calls recorded so far, plus one afterwards
    fn bump(&self) -> i64;
}

fn gone(c: i64) {
    let _p = heap::Pause::new();
    event(|_, l| l.put(|o| o.s("e", "clodrop").n("t", tid()).n("c", c)));
    drop(_p);
    script::in_destructor(c);
}

/// Whether a captured value lies where its type demands.
fn aligned<T>(t: &T) -> bool {
    std::hint::black_box(t as *const T as usize).is_multiple_of(align_of::<T>())
}

macro_rules! sized_state {
    ($name:ident, $n:literal, $(#[$m:meta])*) => {
        $(#[$m])*
        #[repr(C)]
        pub struct $name {
            id: u32,
            n: AtomicU32,
            check: u32,
            pad: [u8; $n],
            heap: Option<Box<u32>>,
        }
        impl $name {
            pub fn new(id: i64) -> Self {
                let id = id as u32;
                Self { id, n: AtomicU32::new(0), check: !id, pad: [id as u8 ^ 0x5a; $n], heap: Some(Box::new(id)) }
            }
        }
        impl State for $name {
            fn id(&self) -> i64 {
                let ok = self.check == !self.id && self.heap.as_deref() == Some(&self.id)
                    && self.pad.iter().all(|&b| b == self.id as u8 ^ 0x5a)
                    && aligned(self);
                if ok { self.id as i64 } else { 0 }
            }
            fn bump(&self) -> i64 { self.n.fetch_add(1, SeqCst) as i64 }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let id = if self.check == !self.id { self.id as i64 } else { 0 };
                self.check = 0;
                // the captured heap block is not the library's
                let p = heap::Pause::new();
                self.heap = None;
                drop(p);
                gone(id);
            }
        }
    };
}
sized_state!(Small, 0,);
sized_state!(Large, 9000,);
sized_state!(Page, 4, #[repr(align(4096))]);
sized_state!(Big, 300,);
sized_state!(Align, 4, #[repr(align(64))]);

/// One byte; the calls are counted elsewhere.
pub struct Tiny(u8);
impl State for Tiny {
    fn id(&self) -> i64 {
        self.0 as i64
    }
    fn bump(&self) -> i64 {
        ZN[self.0 as usize].fetch_add(1, SeqCst) as i64
    }
}
impl Drop for Tiny {
    fn drop(&mut self) {
        let id = std::mem::take(&mut self.0);
        gone(id as i64);
    }
}

/// wrappers 1..=NZ have a zero-sized closure type of their own
pub const NZ: usize = 11;
static ZN: [AtomicU32; NZ + 1] = [const { AtomicU32::new(0) }; NZ + 1];
pub fn reset_zst() {
    for z in &ZN {
        z.store(0, SeqCst);
    }
}
#[repr(align(32))]
pub struct Zst<const ID: usize>;
impl<const ID: usize> State for Zst<ID> {
    fn id(&self) -> i64 {
        if aligned(self) { ID as i64 } else { 0 }
    }
    fn bump(&self) -> i64 {
        ZN[ID].fetch_add(1, SeqCst) as i64
    }
}
impl<const ID: usize> Drop for Zst<ID> {
    fn drop(&mut self) {
        gone(ID as i64);
    }
}

fn closure<S: State>(s: S) -> impl Fn(Tok) -> u64 + Send + Sync + 'static {
    move |tok: Tok| script::body(&s, tok)
}

// ------------------------------------------------------------------ wrappers as objects

pub type Ptr = *const ();
pub trait Wr {
    fn bare(&self) -> Option<Ptr>;
    /// returns the converted wrapper and the change in heap use
    fn conv(self: Box<Self>, how: &str, store: &str) -> (Box<dyn Wr>, i64);
    fn leak(self: Box<Self>) -> Ptr;
    /// drops the wrapper; Err if that panicked
    fn destroy(self: Box<Self>) -> Result<(), ()>;
    /// the same, the wrapper being owned by a frame that a panic leaves
    fn unwind(self: Box<Self>) -> Result<(), ()>;
}

fn measured<T: Wr + 'static>(f: impl FnOnce() -> T) -> (Box<dyn Wr>, i64) {
    let n = heap::net();
    let t = std::hint::black_box(f());
    let d = heap::net() - n;
    let _p = heap::Pause::new();
    (Box::new(t), d)
}

fn no_such() -> ! {
    eprintln!("harness: impossible conversion");
    std::process::exit(4)
}

macro_rules! common {
    () => {
        fn destroy(self: Box<Self>) -> Result<(), ()> {
            let w = *self;
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(w))).map_err(drop)
        }
        fn unwind(self: Box<Self>) -> Result<(), ()> {
            let w = *self;
            script::leave_by_panic(w);
            Ok(())
        }
    };
}
macro_rules! bare_yes {
    () => {
        fn bare(&self) -> Option<Ptr> {
            Some(to_ptr(self.bare()))
        }
    };
}
macro_rules! bare_no {
    () => {
        fn bare(&self) -> Option<Ptr> {
            None
        }
    };
}
fn to_ptr(x: impl IntoPtr) -> Ptr {
    x.into_ptr()
}
trait IntoPtr {
    fn into_ptr(self) -> Ptr;
}
impl IntoPtr for Ptr {
    fn into_ptr(self) -> Ptr {
        self
    }
}
impl IntoPtr for Sig {
    fn into_ptr(self) -> Ptr {
        self as Ptr
    }
}
impl IntoPtr for SigC {
    fn into_ptr(self) -> Ptr {
        self as Ptr
    }
}

macro_rules! conventions {
    ($($(#[$c:meta])* $m:ident $name:literal $abi:literal $uw:literal $cc:ident;)*) => {
        $($(#[$c])*
        mod $m {
            use super::*;
            pub type Sig = unsafe extern $abi fn(Tok) -> u64;
            impl IntoPtr for Sig {
                fn into_ptr(self) -> Ptr {
                    self as Ptr
                }
            }
            pub unsafe fn call(p: Ptr, t: Tok) -> u64 {
                std::mem::transmute::<Ptr, Sig>(p)(t)
            }
            plain_ctor!(fn_, BareFnAny, FnThunk, Sig, cc::$cc);
            plain_ctor!(mut_, BareFnMutAny, FnMutThunk, Sig, cc::$cc);
            plain_ctor!(once_, BareFnOnceAny, FnOnceThunk, Sig, cc::$cc);
            fn by_kind<F: Fn(Tok) -> u64 + Send + Sync + 'static>(c: &Spec, f: F) -> (Made, i64) {
                let h = H { w: c.w, a: c.a };
                match c.kind {
                    "fn" => fn_::<dyn Send + Sync, F>(c.how, f, h),
                    "mut" => mut_::<dyn Send + Sync, F>(c.how, f, h),
                    "once" => once_::<dyn Send + Sync, F>(c.how, f, h),
                    _ => no_such(),
                }
            }
            pub fn make(c: &Spec) -> (Made, i64) {
                match c.cap {
                    "small" => by_kind(c, closure(Small::new(c.w))),
                    "align" => by_kind(c, closure(Align::new(c.w))),
                    _ => no_such(),
                }
            }
        })*
        const OTHERS: &[Conv] = &[$($(#[$c])* Conv { name: $name, uw: $uw, call: $m::call, ctor: $m::make },)*];
    };
}

macro_rules! wrapper {
    ($ty:ident, $un:ident, $bare:ident, $s:ty, $sname:literal, [$($uname:literal => $u:ty),*]) => {
        impl<B: FnPtr + IntoPtr + 'static> Wr for $ty<B, $s, H> {
            $bare!();
            fn conv(self: Box<Self>, how: &str, store: &str) -> (Box<dyn Wr>, i64) {
                let w = *self;
                match how {
                    "move" => measured(move || { let v = vec![std::hint::black_box(w)]; v.into_iter().next().unwrap() }),
                    "untyped" => measured(move || w.into_untyped()),
                    "into" => match store {
                        $($uname => measured(move || { let u: $un<$u, H> = w.into(); u }),)*
                        _ => no_such(),
                    },
                    "upcast" => match store {
                        $($uname => measured(move || w.upcast::<$u>()),)*
                        _ => no_such(),
                    },
                    _ => no_such(),
                }
            }
            fn leak(self: Box<Self>) -> Ptr {
                let w = *self;
                to_ptr(w.leak())
            }
            common!();
        }
        impl Wr for $un<$s, H> {
            $bare!();
            fn conv(self: Box<Self>, how: &str, store: &str) -> (Box<dyn Wr>, i64) {
                let w = *self;
                match how {
                    "move" => measured(move || { let v = vec![std::hint::black_box(w)]; v.into_iter().next().unwrap() }),
                    "upcast" => match store {
                        $($uname => measured(move || w.upcast::<$u>()),)*
                        _ => no_such(),
                    },
                    _ => no_such(),
                }
            }
            fn leak(self: Box<Self>) -> Ptr {
                let w = *self;
                to_ptr(w.leak())
            }
            common!();
        }
    };
}
macro_rules! wrappers {
    ($ty:ident, $un:ident, $bare:ident) => {
        wrapper!($ty, $un, $bare, dyn Any, "any", ["any" => dyn Any]);
        wrapper!($ty, $un, $bare, dyn Send, "send", ["send" => dyn Send, "any" => dyn Any]);
        wrapper!($ty, $un, $bare, dyn Sync, "sync", ["sync" => dyn Sync, "any" => dyn Any]);
        wrapper!($ty, $un, $bare, dyn Send + Sync, "sendsync",
            ["sendsync" => dyn Send + Sync, "send" => dyn Send, "sync" => dyn Sync, "any" => dyn Any]);
    };
}
wrappers!(BareFnAny, UntypedBareFn, bare_yes);
wrappers!(BareFnMutAny, UntypedBareFnMut, bare_yes);
wrappers!(BareFnOnceAny, UntypedBareFnOnce, bare_no);

// ------------------------------------------------------------------ templates that must be refused

pub struct Bad<F>(F);

macro_rules! unrelocatable {
    () => {
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        core::arch::asm!("jmp 2f", "2:", options(nostack));
        #[cfg(target_arch = "aarch64")]
        core::arch::asm!("bl 2f", "2:", out("lr") _, options(nostack));
        #[cfg(target_arch = "arm")]
        core::arch::asm!("bl 2f", "2:", out("lr") _, options(nostack));
    };
}
unsafe extern "C-unwind" fn bad_template<F: Fn(Tok) -> u64>(tok: Tok) -> u64 {
    unrelocatable!();
    let p: *const F;
    closure_ffi::arch::_thunk_asm!(p);
    (*p)(tok)
}
unsafe extern "C" fn bad_template_c<F: Fn(Tok) -> u64>(tok: Tok) -> u64 {
    unrelocatable!();
    let p: *const F;
    closure_ffi::arch::_thunk_asm!(p);
    (*p)(tok)
}
macro_rules! bad {
    ($sig:ty, $tmpl:ident) => {
        unsafe impl<F: Fn(Tok) -> u64> FnOnceThunk<$sig> for Bad<F> {
            const THUNK_TEMPLATE_ONCE: *const u8 = $tmpl::<F> as *const u8;
            unsafe fn call_once<'a, 'b, 'c>(
                self,
                a: <$sig as FnPtr>::Args<'a, 'b, 'c>,
            ) -> <$sig as FnPtr>::Ret<'a, 'b, 'c> {
                (self.0)(a.0)
            }
        }
        unsafe impl<F: Fn(Tok) -> u64> FnMutThunk<$sig> for Bad<F> {
            const THUNK_TEMPLATE_MUT: *const u8 = $tmpl::<F> as *const u8;
            unsafe fn call_mut<'a, 'b, 'c>(
                &mut self,
                a: <$sig as FnPtr>::Args<'a, 'b, 'c>,
            ) -> <$sig as FnPtr>::Ret<'a, 'b, 'c> {
                (self.0)(a.0)
            }
        }
        unsafe impl<F: Fn(Tok) -> u64> FnThunk<$sig> for Bad<F> {
            const THUNK_TEMPLATE: *const u8 = $tmpl::<F> as *const u8;
            unsafe fn call<'a, 'b, 'c>(
                &self,
                a: <$sig as FnPtr>::Args<'a, 'b, 'c>,
            ) -> <$sig as FnPtr>::Ret<'a, 'b, 'c> {
                (self.0)(a.0)
            }
        }
    };
}
bad!(Sig, bad_template);
bad!(SigC, bad_template_c);

// ------------------------------------------------------------------ constructors

pub enum Made {
    Ok(Box<dyn Wr>),
    Err,
    Panic,
}

fn finish<T: Wr + 'static>(f: impl FnOnce() -> Result<T, closure_ffi::jit_alloc::JitAllocError>) -> (Made, i64) {
    let n = heap::net();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(drop);
    let d = heap::net() - n;
    let _p = heap::Pause::new();
    match r {
        Ok(Ok(w)) => (Made::Ok(Box::new(w)), d),
        Ok(Err(_)) => (Made::Err, d),
        Err(()) => (Made::Panic, d),
    }
}

macro_rules! ctor {
    ($name:ident, $ty:ident, $tr:ident, $sig:ty, $cc:ty) => {
        fn $name<S: ?Sized + 'static, F>(how: &str, bad: bool, f: F, h: H) -> (Made, i64)
        where
            F: ToBoxedDyn<S> + Fn(Tok) -> u64,
            ($cc, F): $tr<$sig> + ToBoxedDyn<S>,
            Bad<F>: ToBoxedDyn<S>,
            $ty<$sig, S, H>: Wr,
        {
            if bad {
                return match how {
                    "try_cc" | "try_thunk" => finish(move || $ty::<$sig, S, H>::try_with_thunk_in(Bad(f), h)),
                    _ => finish(move || Ok($ty::<$sig, S, H>::with_thunk_in(Bad(f), h))),
                };
            }
            match how {
                "try_cc" => finish(move || $ty::<$sig, S, H>::try_with_cc_in(<$cc>::default(), f, h)),
                "cc" => finish(move || Ok($ty::<$sig, S, H>::with_cc_in(<$cc>::default(), f, h))),
                "new" => finish(move || Ok($ty::<$sig, S, H>::new_in(f, h))),
                "try_thunk" => finish(move || $ty::<$sig, S, H>::try_with_thunk_in((<$cc>::default(), f), h)),
                "thunk" => finish(move || Ok($ty::<$sig, S, H>::with_thunk_in((<$cc>::default(), f), h))),
                _ => no_such(),
            }
        }
    };
}
macro_rules! plain_ctor {
    ($name:ident, $ty:ident, $tr:ident, $sig:ty, $cc:ty) => {
        fn $name<S: ?Sized + 'static, F>(how: &str, f: F, h: H) -> (Made, i64)
        where
            F: ToBoxedDyn<S>,
            ($cc, F): $tr<$sig> + ToBoxedDyn<S>,
            $ty<$sig, S, H>: Wr,
        {
            match how {
                "try_cc" => finish(move || $ty::<$sig, S, H>::try_with_cc_in(<$cc>::default(), f, h)),
                "cc" => finish(move || Ok($ty::<$sig, S, H>::with_cc_in(<$cc>::default(), f, h))),
                "new" => finish(move || Ok($ty::<$sig, S, H>::new_in(f, h))),
                "try_thunk" => finish(move || $ty::<$sig, S, H>::try_with_thunk_in((<$cc>::default(), f), h)),
                "thunk" => finish(move || Ok($ty::<$sig, S, H>::with_thunk_in((<$cc>::default(), f), h))),
                _ => no_such(),
            }
        }
    };
}
// not thiscall: rustc does not survive a structure passed that way
conventions! {
    system "system" "system" false System;
    system_u "system-unwind" "system-unwind" true SystemUnwind;
    efiapi "efiapi" "efiapi" false Efiapi;
    rust "Rust" "Rust" true Rust;
    #[cfg(target_arch = "x86_64")] sysv64 "sysv64" "sysv64" false Sysv64;
    #[cfg(target_arch = "x86_64")] sysv64_u "sysv64-unwind" "sysv64-unwind" true Sysv64Unwind;
    #[cfg(target_arch = "x86_64")] win64 "win64" "win64" false Win64;
    #[cfg(target_arch = "x86_64")] win64_u "win64-unwind" "win64-unwind" true Win64Unwind;
    #[cfg(target_arch = "arm")] aapcs "aapcs" "aapcs" false Aapcs;
    #[cfg(target_arch = "arm")] aapcs_u "aapcs-unwind" "aapcs-unwind" true AapcsUnwind;
    #[cfg(target_arch = "x86")] fastcall "fastcall" "fastcall" false Fastcall;
    #[cfg(target_arch = "x86")] fastcall_u "fastcall-unwind" "fastcall-unwind" true FastcallUnwind;
    #[cfg(target_arch = "x86")] stdcall "stdcall" "stdcall" false Stdcall;
    #[cfg(target_arch = "x86")] stdcall_u "stdcall-unwind" "stdcall-unwind" true StdcallUnwind;
    #[cfg(target_arch = "x86")] cdecl "cdecl" "cdecl" false Cdecl;
    #[cfg(target_arch = "x86")] cdecl_u "cdecl-unwind" "cdecl-unwind" true CdeclUnwind;
}

ctor!(fn_u, BareFnAny, FnThunk, Sig, cc::CUnwind);
ctor!(mut_u, BareFnMutAny, FnMutThunk, Sig, cc::CUnwind);
ctor!(once_u, BareFnOnceAny, FnOnceThunk, Sig, cc::CUnwind);
ctor!(fn_c, BareFnAny, FnThunk, SigC, cc::C);
ctor!(mut_c, BareFnMutAny, FnMutThunk, SigC, cc::C);
ctor!(once_c, BareFnOnceAny, FnOnceThunk, SigC, cc::C);

pub struct Spec<'a> {
    pub w: i64,
    pub kind: &'a str,
    pub cap: &'a str,
    pub store: &'a str,
    pub how: &'a str,
    pub bad: bool,
    pub uw: bool,
    pub a: i64,
    /// an unusual size
    pub odd: bool,
}

fn by_store<F: Fn(Tok) -> u64 + Send + Sync + 'static>(c: &Spec, f: F) -> (Made, i64) {
    let h = H { w: c.w, a: c.a };
    macro_rules! go {
        ($f:ident) => {
            match c.store {
                "any" => $f::<dyn Any, F>(c.how, c.bad, f, h),
                "send" => $f::<dyn Send, F>(c.how, c.bad, f, h),
                "sync" => $f::<dyn Sync, F>(c.how, c.bad, f, h),
                "sendsync" => $f::<dyn Send + Sync, F>(c.how, c.bad, f, h),
                _ => no_such(),
            }
        };
    }
    match (c.kind, c.uw) {
        ("fn", true) => go!(fn_u),
        ("mut", true) => go!(mut_u),
        ("once", true) => go!(once_u),
        ("fn", false) => go!(fn_c),
        ("mut", false) => go!(mut_c),
        ("once", false) => go!(once_c),
        _ => no_such(),
    }
}

/// The convention for a construction, the n-th of those that fit.
pub fn convention(c: &Spec, n: usize) -> &'static Conv {
    let others = !c.bad && c.store == "sendsync" && matches!(c.cap, "small" | "align");
    let fit: Vec<&Conv> =
        COMMON.iter().chain(OTHERS.iter().filter(|_| others)).filter(|v| v.uw == c.uw).collect();
    fit[n % fit.len()]
}

pub fn make(c: &Spec, v: &Conv) -> (Made, i64) {
    (v.ctor)(c)
}

/// Closures of other sizes, for one storage of each kind.
fn unusual<F: Fn(Tok) -> u64 + Send + Sync + 'static>(c: &Spec, f: F) -> (Made, i64) {
    let h = H { w: c.w, a: c.a };
    match (c.kind, c.uw) {
        ("fn", true) => fn_u::<dyn Any, F>(c.how, c.bad, f, h),
        ("mut", true) => mut_u::<dyn Any, F>(c.how, c.bad, f, h),
        ("once", true) => once_u::<dyn Any, F>(c.how, c.bad, f, h),
        ("fn", false) => fn_c::<dyn Any, F>(c.how, c.bad, f, h),
        ("mut", false) => mut_c::<dyn Any, F>(c.how, c.bad, f, h),
        ("once", false) => once_c::<dyn Any, F>(c.how, c.bad, f, h),
        _ => no_such(),
    }
}

fn make_common(c: &Spec) -> (Made, i64) {
    if c.store == "any" && c.odd {
        // taking such a closure off the heap needs stack probes in the prologue, which not all targets can relocate
        let fits = c.kind != "once" || cfg!(target_arch = "x86_64");
        match c.cap {
            "small" if c.w as usize <= NZ => return unusual(c, closure(Tiny(c.w as u8))),
            _ if !fits => (),
            "big" => return unusual(c, closure(Large::new(c.w))),
            "align" => return unusual(c, closure(Page::new(c.w))),
            _ => (),
        }
    }
    match c.cap {
        "zst" => match c.w {
            1 => by_store(c, closure(Zst::<1>)),
            2 => by_store(c, closure(Zst::<2>)),
            3 => by_store(c, closure(Zst::<3>)),
            4 => by_store(c, closure(Zst::<4>)),
            5 => by_store(c, closure(Zst::<5>)),
            6 => by_store(c, closure(Zst::<6>)),
            7 => by_store(c, closure(Zst::<7>)),
            8 => by_store(c, closure(Zst::<8>)),
            9 => by_store(c, closure(Zst::<9>)),
            10 => by_store(c, closure(Zst::<10>)),
            11 => by_store(c, closure(Zst::<11>)),
            _ => by_store(c, closure(Small::new(c.w))),
        },
        "small" => by_store(c, closure(Small::new(c.w))),
        "big" => by_store(c, closure(Big::new(c.w))),
        "align" => by_store(c, closure(Align::new(c.w))),
        _ => no_such(),
    }
}

/// Let anything the library or std initialises once happen before heap use is measured.
pub fn warm_up() {
    crate::jit::reset(1, false);
    for bad in [false, true] {
        for how in ["try_cc", "cc"] {
            let c = Spec { w: 12, kind: "fn", cap: "small", store: "any", how, bad, uw: true, a: 1, odd: false };
            if let (Made::Ok(w), _) = make(&c, convention(&c, 0)) {
                let _ = w.destroy();
            }
        }
    }
}
