//! Makes allocator requests through handles (mode "turn" or "free"), or takes blocks from the
//! library's own allocators (mode "blocks" or "crowd"), and
//! programs of threads that use wrappers at the same time (mode "storm" or "storm-mut"), and records what happens.
//!
//! usage: handle MODE PROGRAMS TRACE
mod blocks;
mod handles;
mod log;
mod storm;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    log::open(&args[3]);
    let text = std::fs::read_to_string(&args[2]).unwrap();
    let programs: Vec<Vec<Vec<&str>>> = text
        .split("---\n")
        .filter(|p| !p.is_empty())
        .map(|p| p.lines().map(|l| l.split(' ').collect()).collect())
        .collect();
    match &*args[1] {
        "turn" | "free" => {
            for (i, p) in programs.iter().enumerate() {
                log::emit(|w| w.s("e", "reset").n("i", i as i64));
                handles::run(p, args[1] == "free");
            }
        }
        "blocks" | "crowd" => blocks::run(&programs, args[1] == "crowd"),
        "storm" | "storm-mut" => storm::run(&programs, args[1] == "storm-mut"),
        _ => std::process::exit(3),
    }
    log::emit(|w| w.s("e", "end"));
}
