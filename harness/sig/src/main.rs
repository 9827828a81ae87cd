//! Runs generated cases (cases.rs) and writes what happens, one JSON object per line.
//!
//! usage: sig FIRST [IMAGES]
#![cfg_attr(feature = "variadic", feature(c_variadic))]
#![allow(improper_ctypes_definitions, improper_ctypes, unused, dead_code, clippy::all, mismatched_lifetime_syntaxes)]
#[cfg(feature = "regs")]
#[path = "../../reloc/src/asm.rs"]
mod asm;
mod cases;
mod jit;
mod log;
#[cfg(feature = "regs")]
mod regs;
mod val;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let first: usize = args[1].parse().unwrap();
    #[cfg(feature = "regs")]
    regs::run(first, &args[2]);
    #[cfg(not(feature = "regs"))]
    for (id, f) in cases::CASES.iter().filter(|c| c.0 as usize >= first) {
        log::begin(*id);
        f();
        log::flush();
    }
    log::say("{\"e\":\"done\"}\n");
}
