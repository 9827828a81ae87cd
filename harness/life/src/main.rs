//! Replays programs produced from BareFnGen.tla into closure-ffi and records what happens.
//!
//! usage: life MODE PROGRAMS TRACE SEED FIRST COUNT
//!   MODE = turn: threads of a program take turns in the order of the program
//!          free: threads run at the same time, each its own part of the program
//!          caches: requests to make code visible, from Caches.tla
#![allow(static_mut_refs)]

mod caches;
mod heap;
mod jit;
mod log;
mod script;
mod wrappers;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let (mode, programs, trace) = (&args[1], &args[2], &args[3]);
    let seed: u64 = args[4].parse().unwrap();
    let first: usize = args[5].parse().unwrap();
    let count: usize = args[6].parse().unwrap();

    log::open(trace);
    jit::init();
    let text = std::fs::read_to_string(programs).unwrap();
    if mode == "caches" {
        caches::run(&text);
        return log::emit(|w| w.s("e", "end"));
    }
    let programs = script::parse(&text);
    wrappers::warm_up();
    for (i, p) in programs.iter().enumerate().skip(first).take(count) {
        script::run(p, i, seed, mode == "free");
    }
    log::emit(|w| w.s("e", "end"));
}
