//! Entering relocated code with every register set and recording every register at its end.
#![allow(static_mut_refs, named_asm_labels)]
use core::arch::global_asm;

#[cfg(target_arch = "x86_64")]
mod n {
    pub const NREG: usize = 16;
    pub const NVEC: usize = 16;
}
#[cfg(target_arch = "x86")]
mod n {
    pub const NREG: usize = 8;
    pub const NVEC: usize = 8;
}
#[cfg(target_arch = "aarch64")]
mod n {
    pub const NREG: usize = 31;
    pub const NVEC: usize = 32;
}
#[cfg(target_arch = "arm")]
mod n {
    pub const NREG: usize = 15;
    pub const NVEC: usize = 8; // d0-d15 as pairs
}
pub use n::*;

pub const THUMB: usize = cfg!(thumb) as usize;

#[repr(align(16))]
pub struct Al<T>(pub T);
impl<T, const N: usize> std::ops::Index<usize> for Al<[T; N]> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.0[i]
    }
}
impl<T, const N: usize> std::ops::IndexMut<usize> for Al<[T; N]> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.0[i]
    }
}

#[no_mangle]
pub static mut IN: Al<[usize; NREG]> = Al([0; NREG]);
#[no_mangle]
pub static mut IN_VEC: Al<[u64; NVEC * 2]> = Al([0; NVEC * 2]);
#[no_mangle]
pub static mut IN_FLAGS: usize = 0;
#[no_mangle]
pub static mut IN_SP: usize = 0;
#[no_mangle]
pub static mut OUT: Al<[usize; NREG]> = Al([0; NREG]);
#[no_mangle]
pub static mut OUT_VEC: Al<[u64; NVEC * 2]> = Al([0; NVEC * 2]);
#[no_mangle]
pub static mut OUT_FLAGS: usize = 0;
#[no_mangle]
pub static mut OUT_SP: usize = 0;
#[no_mangle]
pub static mut MARK: usize = 0;
#[no_mangle]
pub static mut HOST_SP: usize = 0;
#[no_mangle]
pub static mut TARGET_FN: usize = 0;

extern "C" {
    /// Loads the IN registers and jumps to `f`; comes back when `dump` is reached.
    fn enter_asm(f: usize);
    pub fn dump();
    pub fn dump_out();
}

pub unsafe fn enter(f: usize) {
    TARGET_FN = f;
    enter_asm(f)
}

type Raw = unsafe extern "C" fn();
/// The lookup sequence of the library between two labels, at different alignments.
macro_rules! donors {
    ($($skip:literal $f:ident $s:ident $e:ident),*) => {
        $(
            extern "C" {
                fn $s();
                fn $e();
            }
            #[inline(never)]
            unsafe extern "C" fn $f() {
                core::arch::asm!(".balign 16", concat!(".skip ", $skip), concat!(".globl ", stringify!($s)),
                    concat!(stringify!($s), ":"), options(nostack));
                let p: *mut ();
                closure_ffi::arch::_thunk_asm!(p);
                core::arch::asm!(concat!(".globl ", stringify!($e)), concat!(stringify!($e), ":"), options(nostack));
                core::hint::black_box(p);
            }
        )*
        pub const DONORS: &[(Raw, Raw, Raw)] = &[$(($f, $s, $e)),*];
    };
}
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
donors!(0 d0 ds0 de0, 1 d1 ds1 de1, 2 d2 ds2 de2, 3 d3 ds3 de3, 4 d4 ds4 de4, 5 d5 ds5 de5, 6 d6 ds6 de6,
    7 d7 ds7 de7, 8 d8 ds8 de8, 9 d9 ds9 de9, 10 d10 ds10 de10, 11 d11 ds11 de11, 12 d12 ds12 de12,
    13 d13 ds13 de13, 14 d14 ds14 de14, 15 d15 ds15 de15);
#[cfg(all(any(target_arch = "aarch64", target_arch = "arm"), not(thumb)))]
donors!(0 d0 ds0 de0, 4 d4 ds4 de4, 8 d8 ds8 de8, 12 d12 ds12 de12);
#[cfg(all(target_arch = "arm", thumb))]
donors!(0 d0 ds0 de0, 2 d2 ds2 de2, 4 d4 ds4 de4, 6 d6 ds6 de6, 8 d8 ds8 de8, 10 d10 ds10 de10, 12 d12 ds12 de12,
    14 d14 ds14 de14);

#[cfg(target_arch = "x86_64")]
pub fn jump(_at: usize, to: usize) -> Vec<u8> {
    let mut v = vec![0xff, 0x25, 0, 0, 0, 0];
    v.extend_from_slice(&to.to_le_bytes());
    v
}
#[cfg(target_arch = "x86")]
pub fn jump(at: usize, to: usize) -> Vec<u8> {
    let mut v = vec![0xe9];
    v.extend_from_slice(&to.wrapping_sub(at + 5).to_le_bytes());
    v
}
#[cfg(target_arch = "aarch64")]
pub fn jump(at: usize, to: usize) -> Vec<u8> {
    let d = to.wrapping_sub(at) as i64 >> 2;
    (0x1400_0000 | d as u32 & 0x03ff_ffff).to_le_bytes().to_vec()
}
#[cfg(all(target_arch = "arm", not(thumb)))]
pub fn jump(at: usize, to: usize) -> Vec<u8> {
    let d = to.wrapping_sub(at + 8) as i32 >> 2;
    (0xea00_0000 | d as u32 & 0x00ff_ffff).to_le_bytes().to_vec()
}
#[cfg(all(target_arch = "arm", thumb))]
pub fn jump(at: usize, to: usize) -> Vec<u8> {
    let d = (to & !1).wrapping_sub(at + 4) as i32 >> 1;
    let d = d as u32;
    let s = d >> 23 & 1;
    let (j1, j2) = (!(d >> 22 & 1 ^ s) & 1, !(d >> 21 & 1 ^ s) & 1);
    let hi = 0xf000 | s << 10 | d >> 11 & 0x3ff;
    let lo = 0x9000 | j1 << 13 | j2 << 11 | d & 0x7ff;
    [(hi as u16).to_le_bytes(), (lo as u16).to_le_bytes()].concat()
}

pub fn sync(_at: usize, _len: usize) {
    #[cfg(target_arch = "aarch64")]
    unsafe {
        // emulated: translations are dropped by writes through the same mapping
        core::arch::asm!("dsb ish", "isb");
    }
}

#[cfg(target_arch = "x86_64")]
global_asm!(
    r#"
    .globl enter_asm
enter_asm:
    push rbx
    push rbp
    push r12
    push r13
    push r14
    push r15
    pushfq
    mov [rip + HOST_SP], rsp
    lea rax, [rip + IN_VEC]
    .irp i,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15
    movups xmm\i, [rax + 16*\i]
    .endr
    push qword ptr [rip + IN_FLAGS]
    popfq
    mov rsp, [rip + IN_SP]
    mov rax, [rip + IN + 0]
    mov rcx, [rip + IN + 8]
    mov rdx, [rip + IN + 16]
    mov rbx, [rip + IN + 24]
    mov rbp, [rip + IN + 40]
    mov rsi, [rip + IN + 48]
    mov rdi, [rip + IN + 56]
    mov r8, [rip + IN + 64]
    mov r9, [rip + IN + 72]
    mov r10, [rip + IN + 80]
    mov r11, [rip + IN + 88]
    mov r12, [rip + IN + 96]
    mov r13, [rip + IN + 104]
    mov r14, [rip + IN + 112]
    mov r15, [rip + IN + 120]
    jmp [rip + TARGET_FN]

    .globl dump_out
dump_out:
    mov qword ptr [rip + MARK], 2
    .globl dump
dump:
    mov [rip + OUT + 0], rax
    mov [rip + OUT + 8], rcx
    mov [rip + OUT + 16], rdx
    mov [rip + OUT + 24], rbx
    mov [rip + OUT + 40], rbp
    mov [rip + OUT + 48], rsi
    mov [rip + OUT + 56], rdi
    mov [rip + OUT + 64], r8
    mov [rip + OUT + 72], r9
    mov [rip + OUT + 80], r10
    mov [rip + OUT + 88], r11
    mov [rip + OUT + 96], r12
    mov [rip + OUT + 104], r13
    mov [rip + OUT + 112], r14
    mov [rip + OUT + 120], r15
    mov [rip + OUT_SP], rsp
    mov rsp, [rip + HOST_SP]
    pushfq
    pop qword ptr [rip + OUT_FLAGS]
    lea rax, [rip + OUT_VEC]
    .irp i,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15
    movups [rax + 16*\i], xmm\i
    .endr
    popfq
    pop r15
    pop r14
    pop r13
    pop r12
    pop rbp
    pop rbx
    ret
"#
);

#[cfg(target_arch = "x86")]
global_asm!(
    r#"
    .globl enter_asm
enter_asm:
    push ebx
    push ebp
    push esi
    push edi
    pushfd
    mov [HOST_SP], esp
    lea eax, [IN_VEC]
    .irp i,0,1,2,3,4,5,6,7
    movups xmm\i, [eax + 16*\i]
    .endr
    push dword ptr [IN_FLAGS]
    popfd
    mov esp, [IN_SP]
    mov eax, [IN + 0]
    mov ecx, [IN + 4]
    mov edx, [IN + 8]
    mov ebx, [IN + 12]
    mov ebp, [IN + 20]
    mov esi, [IN + 24]
    mov edi, [IN + 28]
    jmp dword ptr [TARGET_FN]

    .globl dump_out
dump_out:
    mov dword ptr [MARK], 2
    .globl dump
dump:
    mov [OUT + 0], eax
    mov [OUT + 4], ecx
    mov [OUT + 8], edx
    mov [OUT + 12], ebx
    mov [OUT + 20], ebp
    mov [OUT + 24], esi
    mov [OUT + 28], edi
    mov [OUT_SP], esp
    mov esp, [HOST_SP]
    pushfd
    pop dword ptr [OUT_FLAGS]
    lea eax, [OUT_VEC]
    .irp i,0,1,2,3,4,5,6,7
    movups [eax + 16*\i], xmm\i
    .endr
    popfd
    pop edi
    pop esi
    pop ebp
    pop ebx
    ret
"#
);

#[cfg(target_arch = "aarch64")]
global_asm!(
    r#"
    .globl enter_asm
enter_asm:
    stp x29, x30, [sp, #-16]!
    stp x19, x20, [sp, #-16]!
    stp x21, x22, [sp, #-16]!
    stp x23, x24, [sp, #-16]!
    stp x25, x26, [sp, #-16]!
    stp x27, x28, [sp, #-16]!
    stp d8, d9, [sp, #-16]!
    stp d10, d11, [sp, #-16]!
    stp d12, d13, [sp, #-16]!
    stp d14, d15, [sp, #-16]!
    mov x1, sp
    adrp x2, HOST_SP
    str x1, [x2, :lo12:HOST_SP]
    adrp x2, IN_FLAGS
    ldr x1, [x2, :lo12:IN_FLAGS]
    msr nzcv, x1
    adrp x2, IN_SP
    ldr x1, [x2, :lo12:IN_SP]
    mov sp, x1
    adrp x17, IN_VEC
    add x17, x17, :lo12:IN_VEC
    .irp i,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31
    ldr q\i, [x17], #16
    .endr
    adrp x17, TARGET_FN
    ldr x17, [x17, :lo12:TARGET_FN]
    adrp x30, IN
    add x30, x30, :lo12:IN
    ldp x0, x1, [x30]
    ldp x2, x3, [x30, #16]
    ldp x4, x5, [x30, #32]
    ldp x6, x7, [x30, #48]
    ldp x8, x9, [x30, #64]
    ldp x10, x11, [x30, #80]
    ldp x12, x13, [x30, #96]
    ldp x14, x15, [x30, #112]
    ldr x16, [x30, #128]
    ldp x18, x19, [x30, #144]
    ldp x20, x21, [x30, #160]
    ldp x22, x23, [x30, #176]
    ldp x24, x25, [x30, #192]
    ldp x26, x27, [x30, #208]
    ldp x28, x29, [x30, #224]
    ldr x30, [x30, #240]
    br x17

    .globl dump_out
dump_out:
    stp x16, x17, [sp, #-16]!
    mov x17, #2
    adrp x16, MARK
    str x17, [x16, :lo12:MARK]
    ldp x16, x17, [sp], #16
    .globl dump
dump:
    stp x16, x17, [sp, #-16]!
    adrp x16, OUT
    add x16, x16, :lo12:OUT
    stp x0, x1, [x16]
    stp x2, x3, [x16, #16]
    stp x4, x5, [x16, #32]
    stp x6, x7, [x16, #48]
    stp x8, x9, [x16, #64]
    stp x10, x11, [x16, #80]
    stp x12, x13, [x16, #96]
    stp x14, x15, [x16, #112]
    stp x18, x19, [x16, #144]
    stp x20, x21, [x16, #160]
    stp x22, x23, [x16, #176]
    stp x24, x25, [x16, #192]
    stp x26, x27, [x16, #208]
    stp x28, x29, [x16, #224]
    str x30, [x16, #240]
    ldp x0, x1, [sp], #16
    stp x0, x1, [x16, #128]
    mov x1, sp
    adrp x2, OUT_SP
    str x1, [x2, :lo12:OUT_SP]
    mrs x1, nzcv
    adrp x2, OUT_FLAGS
    str x1, [x2, :lo12:OUT_FLAGS]
    adrp x17, OUT_VEC
    add x17, x17, :lo12:OUT_VEC
    .irp i,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31
    str q\i, [x17], #16
    .endr
    adrp x2, HOST_SP
    ldr x1, [x2, :lo12:HOST_SP]
    mov sp, x1
    ldp d14, d15, [sp], #16
    ldp d12, d13, [sp], #16
    ldp d10, d11, [sp], #16
    ldp d8, d9, [sp], #16
    ldp x27, x28, [sp], #16
    ldp x25, x26, [sp], #16
    ldp x23, x24, [sp], #16
    ldp x21, x22, [sp], #16
    ldp x19, x20, [sp], #16
    ldp x29, x30, [sp], #16
    ret
"#
);

#[cfg(target_arch = "arm")]
macro_rules! arm_asm {
    ($mode:literal) => {
        global_asm!(
            $mode,
            r#"
    .globl enter_asm
    .type enter_asm, %function
enter_asm:
    push {{r4-r11, lr}}
    sub sp, sp, #4
    vpush {{d8-d15}}
    movw r1, #:lower16:HOST_SP
    movt r1, #:upper16:HOST_SP
    str sp, [r1]
    movw r1, #:lower16:IN_VEC
    movt r1, #:upper16:IN_VEC
    vldm r1, {{d0-d15}}
    movw r1, #:lower16:IN_FLAGS
    movt r1, #:upper16:IN_FLAGS
    ldr r1, [r1]
    msr APSR_nzcvqg, r1
    movw r1, #:lower16:IN_SP
    movt r1, #:upper16:IN_SP
    ldr r1, [r1]
    str r0, [r1, #-4]!
    mov sp, r1
    movw lr, #:lower16:IN
    movt lr, #:upper16:IN
    ldm lr, {{r0-r12}}
    ldr lr, [lr, #56]
    pop {{pc}}

    .globl dump_out
    .type dump_out, %function
dump_out:
    push {{r0, r1}}
    movw r0, #:lower16:MARK
    movt r0, #:upper16:MARK
    movw r1, #2
    str r1, [r0]
    pop {{r0, r1}}
    .globl dump
    .type dump, %function
dump:
    push {{r0, lr}}
    movw lr, #:lower16:OUT
    movt lr, #:upper16:OUT
    stm lr, {{r0-r12}}
    pop {{r0, r1}}
    str r1, [lr, #56]
    movw r1, #:lower16:OUT_SP
    movt r1, #:upper16:OUT_SP
    str sp, [r1]
    mrs r2, APSR
    movw r1, #:lower16:OUT_FLAGS
    movt r1, #:upper16:OUT_FLAGS
    str r2, [r1]
    movw r1, #:lower16:OUT_VEC
    movt r1, #:upper16:OUT_VEC
    vstm r1, {{d0-d15}}
    movw r1, #:lower16:HOST_SP
    movt r1, #:upper16:HOST_SP
    ldr r1, [r1]
    mov sp, r1
    vpop {{d8-d15}}
    add sp, sp, #4
    pop {{r4-r11, pc}}
"#
        );
    };
}
#[cfg(all(target_arch = "arm", not(thumb)))]
arm_asm!(".arm");
#[cfg(all(target_arch = "arm", thumb))]
arm_asm!(".thumb");
