//! Calls with every register and the stack set by hand.
//!
//! IMAGES: `id op..` with op `Rn=hex` (register), `Vn=hex` (64-bit half of vector register n/2),
//! `Sn=hex` (stack argument byte), `Q=places` where the result is: `g0,g1` / `v0` / `x`, `T=type`.
use crate::{asm, cases, log, val::mix};
use std::fmt::Write as _;

const STACK: usize = 1 << 20;
#[repr(align(64))]
struct Stack([u8; STACK]);
static mut STACK_MEM: Stack = Stack([0; STACK]);
const W: usize = size_of::<usize>();
const PUSHED: usize = if cfg!(any(target_arch = "x86", target_arch = "x86_64")) { W } else { 0 };

pub static mut SEEN_SP: usize = 0;

#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
core::arch::global_asm!(
    ".globl sig_sp",
    "sig_sp:",
    #[cfg(target_arch = "x86_64")]
    "lea rax, [rsp + 8]",
    #[cfg(target_arch = "x86")]
    "lea eax, [esp + 4]",
    "ret"
);
#[cfg(target_arch = "aarch64")]
core::arch::global_asm!(".globl sig_sp", "sig_sp:", "mov x0, sp", "ret");
#[cfg(all(target_arch = "arm", not(thumb)))]
core::arch::global_asm!(".arm", ".globl sig_sp", ".type sig_sp, %function", "sig_sp:", "mov r0, sp", "bx lr");
#[cfg(all(target_arch = "arm", thumb))]
core::arch::global_asm!(".thumb", ".globl sig_sp", ".type sig_sp, %function", "sig_sp:", "mov r0, sp", "bx lr");
extern "C" {
    fn sig_sp() -> usize;
}

/// Called by every body: the stack pointer a called function sees.
#[inline(always)]
pub fn look() {
    unsafe { SEEN_SP = sig_sp() };
}
/// Overwrites registers.
#[inline(always)]
pub fn trash() {
    unsafe {
        #[cfg(target_arch = "x86_64")]
        core::arch::asm!("mov r12, -1", "mov r13, -1", "mov r14, -1", "mov r15, -1", "mov rsi, -1", "mov rdi, -1",
            "pcmpeqd xmm6, xmm6", "pcmpeqd xmm7, xmm7", "pcmpeqd xmm8, xmm8", "pcmpeqd xmm9, xmm9", "pcmpeqd xmm10, xmm10",
            "pcmpeqd xmm11, xmm11", "pcmpeqd xmm12, xmm12", "pcmpeqd xmm13, xmm13", "pcmpeqd xmm14, xmm14", "pcmpeqd xmm15, xmm15",
            out("r12") _, out("r13") _, out("r14") _, out("r15") _, out("rsi") _, out("rdi") _,
            out("xmm6") _, out("xmm7") _, out("xmm8") _, out("xmm9") _, out("xmm10") _, out("xmm11") _, out("xmm12") _,
            out("xmm13") _, out("xmm14") _, out("xmm15") _);
        #[cfg(target_arch = "x86")]
        core::arch::asm!("mov edi, -1", "mov ecx, -1", "mov edx, -1", out("edi") _, out("ecx") _, out("edx") _);
        #[cfg(target_arch = "aarch64")]
        core::arch::asm!("mov x20, #-1", "mov x21, #-1", "mov x22, #-1", "mov x23, #-1", "mov x24, #-1", "mov x25, #-1",
            "mov x26, #-1", "mov x27, #-1", "mov x28, #-1", "movi v8.2d, #0", "movi v9.2d, #0", "movi v10.2d, #0", "movi v15.2d, #0",
            out("x20") _, out("x21") _, out("x22") _, out("x23") _, out("x24") _, out("x25") _, out("x26") _, out("x27") _,
            out("x28") _, out("v8") _, out("v9") _, out("v10") _, out("v15") _);
        #[cfg(target_arch = "arm")]
        core::arch::asm!("mvn r4, #0", "mvn r5, #0", "mvn r8, #0", "mvn r10, #0", "vmov.f64 d8, #1.0", "vmov.f64 d15, #1.0",
            out("r4") _, out("r5") _, out("r8") _, out("r10") _, out("d8") _, out("d15") _);
    }
}
/// Uses a lot of stack.
#[inline(always)]
pub fn large() {
    let mut a = std::mem::MaybeUninit::<[u8; 9000]>::uninit();
    std::hint::black_box(a.as_mut_ptr());
}

#[cfg(target_arch = "x86_64")]
const NAMES: [&str; 16] =
    ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];
#[cfg(target_arch = "x86")]
const NAMES: [&str; 8] = ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"];

fn name(i: usize) -> String {
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    return NAMES[i].into();
    #[cfg(target_arch = "aarch64")]
    return format!("x{i}");
    #[cfg(target_arch = "arm")]
    return format!("r{i}");
}
fn dump(r: &[usize], v: &[u64]) -> String {
    let mut s = String::from("{");
    for (i, x) in r.iter().enumerate() {
        let _ = write!(s, "\"{}\":\"{x:x}\",", name(i));
    }
    for (i, x) in v.iter().enumerate() {
        #[cfg(target_arch = "arm")]
        let _ = write!(s, "\"v{i}\":\"{x:x}\",");
        #[cfg(not(target_arch = "arm"))]
        if i % 2 == 0 {
            let _ = write!(s, "\"v{}\":\"{x:x}\",\"q{}\":\"{x:x}:{:x}\",", i / 2, i / 2, v[i + 1]);
        }
    }
    s.pop();
    s + "}"
}

pub fn run(first: usize, images: &str) {
    let text = std::fs::read_to_string(images).unwrap();
    for line in text.lines() {
        let mut f = line.split(' ');
        let id: u32 = f.next().unwrap().parse().unwrap();
        if (id as usize) < first {
            continue;
        }
        log::begin(id);
        let case = cases::REGS.iter().find(|c| c.0 == id).unwrap();
        if let Some((p, keep)) = (case.1)() {
            unsafe { one(id, p, f.clone()) };
            drop(keep);
        }
        log::flush();
    }
}

unsafe fn one<'a>(id: u32, f: usize, ops: impl Iterator<Item = &'a str>) {
    let stack = &raw mut STACK_MEM as usize + STACK - 4096;
    let sp = stack - PUSHED;
    for i in 0..4096 {
        (stack as *mut u8).add(i).write(mix(id as u64, i as u64 + 999) as u8);
    }
    for i in 0..asm::NREG {
        asm::IN[i] = mix(id as u64, i as u64) as usize;
    }
    for i in 0..asm::NVEC * 2 {
        asm::IN_VEC[i] = mix(id as u64, i as u64 + 100);
    }
    let (mut places, mut size, mut sent, mut float) = ("", 0, vec![], false);
    for op in ops {
        let (k, v) = op.split_once('=').unwrap();
        let (kind, n) = k.split_at(1);
        let n: usize = n.parse().unwrap_or(0);
        match kind {
            "R" => asm::IN[n] = u64::from_str_radix(v, 16).unwrap() as usize,
            "V" => asm::IN_VEC[n] = u64::from_str_radix(v, 16).unwrap(),
            // low or high half
            "H" => {
                let x = u64::from_str_radix(v, 16).unwrap();
                let o = &mut asm::IN_VEC[n / 2];
                *o = if n % 2 == 0 { *o & !0xffff_ffff | x } else { *o & 0xffff_ffff | x << 32 };
            }
            "S" => ((stack + n) as *mut u8).write(u8::from_str_radix(v, 16).unwrap()),
            "A" => sent.push(u64::from_str_radix(v, 16).unwrap()),
            "Q" => places = v,
            "T" => size = v.parse().unwrap(),
            "F" => float = true,
            _ => panic!("{op}"),
        }
    }
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    {
        (sp as *mut usize).write(asm::dump as *const () as usize);
        asm::IN_FLAGS = 2;
    }
    #[cfg(target_arch = "aarch64")]
    {
        asm::IN[30] = asm::dump as *const () as usize;
        asm::IN_FLAGS = 0;
    }
    #[cfg(target_arch = "arm")]
    {
        asm::IN[14] = asm::dump as *const () as usize | asm::THUMB;
        asm::IN_FLAGS = 0;
    }
    asm::IN_SP = sp;
    SEEN_SP = 0;
    log::call(id, &sent);
    log::flush();
    asm::enter(f);
    let mut st = 0.0f64;
    #[cfg(target_arch = "x86")]
    if places == "x" {
        core::arch::asm!("fstp qword ptr [{}]", in(reg) &mut st,
            out("st(0)") _, out("st(1)") _, out("st(2)") _, out("st(3)") _, out("st(4)") _, out("st(5)") _, out("st(6)") _, out("st(7)") _);
    }
    let mut r = 0u64;
    let word = 8 * W as u32;
    for (i, p) in places.split(',').enumerate() {
        match p {
            "g0" => r |= asm::OUT[0] as u64,
            "g1" => r |= (asm::OUT[if cfg!(target_arch = "x86") { 2 } else { 1 }] as u64) << 32,
            "v0" => r |= asm::OUT_VEC[0],
            "v1" => {}
            "x" => r = if size == 4 { (st as f32).to_bits() as u64 } else { st.to_bits() },
            "" => {}
            _ => panic!(),
        }
    }
    if size == 4 {
        r &= 0xffff_ffff;
    }
    log::ret(id, r);
    let delta = asm::OUT_SP as isize - sp as isize - PUSHED as isize;
    log::put(format!(
        "{{\"e\":\"keep\",\"c\":{id},\"before\":{},\"after\":{},\"sp\":{delta},\"align\":{}}}",
        dump(&asm::IN.0, &asm::IN_VEC.0), dump(&asm::OUT.0, &asm::OUT_VEC.0), SEEN_SP % 4096
    ));
}
