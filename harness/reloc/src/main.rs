//! Places hand-made thunk templates in memory, lets closure-ffi relocate them, runs the result and
//! reports the machine state in which the code after the closure lookup is reached.
//!
//! usage: reloc CASES FIRST
//! CASES: one case per line, `id offset flags placement prologue-hex watch,.. out,.. at:hex,.. register pointer`
//! A case is laid out at ARENA + MID + offset: prologue, then the lookup sequence taken from the
//! library's own macro (with the closure in `register` where that can be chosen), then a jump to
//! `dump`.  Before that the prologue is run where it is, with a jump to `dump` in place of the lookup.
mod asm;
mod heap;
mod jit;

use closure_ffi::traits::{FnMutThunk, FnOnceThunk, FnPtr, FnThunk};
use closure_ffi::BareFnAny;
use std::fmt::Write as _;

pub const SIZE: usize = 5 << 20;
pub const MID: usize = SIZE / 2;
pub const STACK: usize = 1 << 16;

#[repr(align(65536))]
pub struct Arena(pub [u8; SIZE]);
#[no_mangle]
pub static mut ARENA: Arena = Arena([0; SIZE]);
#[repr(align(64))]
pub struct Stack(pub [u8; STACK]);
pub static mut STACK_MEM: Stack = Stack([0; STACK]);

fn arena() -> usize {
    &raw const ARENA as usize
}

type Sig = unsafe extern "C" fn();
struct Tmpl<const O: usize>(#[allow(dead_code)] [u8; heap::CLOSURE - size_of::<usize>()], #[allow(dead_code)] usize);
macro_rules! tmpl {
    ($tr:ident, $name:ident, $call:ident, $($slf:tt)*) => {
        unsafe impl<const O: usize> $tr<Sig> for Tmpl<O> {
            const $name: *const u8 = unsafe { (&raw const ARENA).cast::<u8>().add(MID + O + THUMB) };
            unsafe fn $call<'a, 'b, 'c>($($slf)*, _: <Sig as FnPtr>::Args<'a, 'b, 'c>) -> <Sig as FnPtr>::Ret<'a, 'b, 'c> {}
        }
    };
}
const THUMB: usize = asm::THUMB;
tmpl!(FnOnceThunk, THUNK_TEMPLATE_ONCE, call_once, self);
tmpl!(FnMutThunk, THUNK_TEMPLATE_MUT, call_mut, &mut self);
tmpl!(FnThunk, THUNK_TEMPLATE, call, &self);

type Bare = BareFnAny<Sig, dyn Send, jit::Jit>;

fn build<const O: usize>(j: jit::Jit) -> Result<Bare, ()> {
    let t = Tmpl::<O>([0x11; heap::CLOSURE - size_of::<usize>()], 0x1111);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        Bare::try_with_thunk_in(t, j).unwrap()
    }))
    .map_err(drop)
}
const BUILD: [fn(jit::Jit) -> Result<Bare, ()>; 16] = [
    build::<0>, build::<1>, build::<2>, build::<3>, build::<4>, build::<5>, build::<6>, build::<7>,
    build::<8>, build::<9>, build::<10>, build::<11>, build::<12>, build::<13>, build::<14>, build::<15>,
];

/// Known contents of every byte of the arena.
fn fill(o: usize) -> u8 {
    ((o as u32).wrapping_mul(2654435761) >> 24) as u8
}
fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 32;
    x
}

fn say(s: &str) {
    unsafe { libc::write(1, s.as_ptr().cast(), s.len()) };
}

/// The lookup sequence of the library as compiled at each address modulo 16.
fn donors() -> Vec<Option<Vec<u8>>> {
    let mut v = vec![None; 16];
    for &(f, s, e) in asm::DONORS {
        std::hint::black_box(f);
        let (a, b) = (s as *const () as usize & !asm::THUMB, e as *const () as usize & !asm::THUMB);
        v[a % 16] = Some(unsafe { std::slice::from_raw_parts(a as *const u8, b - a) }.to_vec());
    }
    v
}

/// The lookup with another register, as the compiler might have chosen it.
fn with_register(code: &[u8], reg: usize) -> Option<Vec<u8>> {
    if !cfg!(target_arch = "x86_64") || code[0] & 0xfb != 0x48 || code[1] != 0x8b || code[2] & 0xc7 != 5 {
        return None;
    }
    let mut v = code.to_vec();
    v[0] = 0x48 | (reg as u8 >> 3) << 2;
    v[2] = 5 | (reg as u8 & 7) << 3;
    Some(v)
}

/// Runs `entry` from the state of case `id` and appends the state in which it ends.
fn observe(out: &mut String, id: u64, flags: usize, entry: usize, watch: &[usize], pointer: Option<usize>) {
    let stack = &raw const STACK_MEM as usize + STACK / 2;
    for k in 0..asm::NREG {
        unsafe { asm::IN[k] = mix(id, k as u64 + 1) as usize };
    }
    // a register that points into the stack
    if let Some(k) = pointer {
        unsafe { asm::IN[k] = stack - 1024 };
    }
    for k in 0..asm::NVEC * 2 {
        unsafe { asm::IN_VEC[k] = mix(id, k as u64 + 100) };
    }
    for i in STACK / 2 - 4096..STACK / 2 + 1024 {
        unsafe { STACK_MEM.0[i] = fill(i + 77) };
    }
    unsafe {
        asm::IN_FLAGS = flags;
        asm::IN_SP = stack;
        asm::MARK = 0;
        asm::enter(entry);
    }
    let _ = write!(out, "ok mark={} ", unsafe { asm::MARK });
    let _ = write!(out, "flags={} sp={} regs=", unsafe { asm::OUT_FLAGS }, unsafe { asm::OUT_SP } as i64 - stack as i64);
    for k in 0..asm::NREG {
        let _ = write!(out, "{},", unsafe { asm::OUT[k] });
    }
    out.push_str(" vec=");
    for k in 0..asm::NVEC * 2 {
        let _ = write!(out, "{},", unsafe { asm::OUT_VEC[k] });
    }
    out.push_str(" stack=");
    let sp = unsafe { asm::OUT_SP };
    let lo = &raw const STACK_MEM as usize;
    if sp >= lo && sp + 128 <= lo + STACK {
        for k in 0..12 {
            let p = (sp + k * size_of::<usize>()) as *const usize;
            let _ = write!(out, "{},", unsafe { p.read_unaligned() });
        }
    }
    // what is below the stack pointer
    let below = (STACK / 2 - 2048..STACK / 2 - 128).fold(0u64, |h, i| mix(h, unsafe { STACK_MEM.0[i] } as u64 + 1));
    let _ = write!(out, " below={below} mem=");
    for half in 0..2 {
        for &w in watch {
            let p = (arena() + w + 8 * half) as *const u64;
            let _ = write!(out, "{},", unsafe { p.read_unaligned() });
        }
        if half == 0 {
            out.push_str(" more=");
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    unsafe {
        let r = libc::mprotect(arena() as _, SIZE, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC);
        assert_eq!(r, 0);
        for i in 0..SIZE {
            ARENA.0[i] = fill(i);
        }
    }
    let donors = donors();
    say(&format!(
        "info arena={} size={} mid={} stack={} dump={} choice={} donors={}\n",
        arena(), SIZE, MID, &raw const STACK_MEM as usize + STACK / 2, asm::dump as *const () as usize,
        donors.iter().flatten().all(|d| with_register(d, 0).is_some()) as u32,
        donors.iter().map(|d| d.as_ref().map_or(0, |d| d.len()).to_string()).collect::<Vec<_>>().join(",")
    ));
    if args.len() < 3 {
        return;
    }
    let first: usize = args[2].parse().unwrap();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    for (n, line) in text.lines().enumerate().skip(first) {
        let f: Vec<&str> = line.split(' ').collect();
        let id: u64 = f[0].parse().unwrap();
        let off: usize = f[1].parse().unwrap();
        let flags: usize = f[2].parse().unwrap();
        let place: u64 = f[3].parse().unwrap();
        let pro: Vec<u8> = (0..f[4].len() / 2)
            .map(|i| u8::from_str_radix(&f[4][2 * i..2 * i + 2], 16).unwrap())
            .collect();
        let watch: Vec<usize> = f.get(5).map_or(vec![], |w| {
            w.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
        });
        // exits out of the template: a jump to the second dump is put there
        let outs: Vec<usize> = f.get(6).map_or(vec![], |w| {
            w.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
        });
        let code = donors[(off + pro.len()) % 16].as_ref().expect("no lookup sequence for this address");
        let code = &match f.get(8).filter(|s| !s.is_empty()) {
            Some(r) => with_register(code, r.parse().unwrap()).expect("the register cannot be chosen"),
            None => code.clone(),
        };
        let dlen = code.len();
        let pointer = f.get(9).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap());
        say(&format!("begin {n}\n"));
        unsafe { libc::alarm(10) };
        let base = MID + off;
        let mut dirty: Vec<(usize, usize)> = vec![];
        let mut put = |o: usize, b: &[u8]| unsafe {
            ARENA.0[o..o + b.len()].copy_from_slice(b);
            dirty.push((o, b.len()));
        };
        let mut surround = || {
            for &o in &outs {
                put(o, &asm::jump(arena() + o, asm::dump_out as *const () as usize));
            }
            for e in f.get(7).map_or("", |w| w).split(',').filter(|s| !s.is_empty()) {
                let (o, h) = e.split_once(':').unwrap();
                // bytes, or the address of a place in the arena
                let b: Vec<u8> = match h.strip_prefix('+') {
                    Some(a) => (arena() + a.parse::<usize>().unwrap()).to_ne_bytes().to_vec(),
                    None => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(),
                };
                put(o.parse().unwrap(), &b);
            }
            put(base, &pro);
        };
        surround();
        let end = base + pro.len();
        unsafe { ARENA.0[end..].iter_mut().zip(asm::jump(arena() + end, asm::dump as *const () as usize)).for_each(|(a, b)| *a = b) };
        asm::sync(arena(), SIZE);
        let mut out = format!("home {n} ");
        observe(&mut out, id, flags, arena() + base + THUMB, &watch, pointer);
        out.push('\n');
        say(&out);
        for &w in &watch {
            for i in w..w + 16 {
                unsafe { ARENA.0[i] = fill(i) };
            }
        }
        surround();
        put(end, code);
        let tail = end + dlen;
        put(tail, &asm::jump(arena() + tail, asm::dump as *const () as usize));
        dirty.extend(watch.iter().map(|&w| (w, 16)));
        asm::sync(arena(), SIZE);

        let mut out = format!("res {n} ");
        match BUILD[off](jit::Jit::new(place)) {
            Err(()) => out.push_str("refused"),
            Ok(bare) => {
                jit::change_neighbours();
                observe(&mut out, id, flags, bare.bare() as *const () as usize, &watch, pointer);
                let _ = write!(out, " closure={}", jit::last_closure(&bare));
            }
        }
        for (o, l) in dirty {
            for i in o..o + l {
                unsafe { ARENA.0[i] = fill(i) };
            }
        }
        out.push('\n');
        say(&out);
    }
    say("end\n");
}
