//! Interpreter for programs.
use crate::heap;
use crate::jit::{self, event, tid, REFUSE, TID};
use crate::wrappers::{self, Conv, Made, Ptr, Spec, State, Tok, Wr};
use std::cell::RefCell;
use std::sync::{Condvar, Mutex};

#[derive(Clone, Debug)]
pub struct Cmd {
    t: i64,
    op: String,
    w: i64,
    arg: Vec<String>,
}

pub type Program = Vec<Cmd>;

pub fn parse(text: &str) -> Vec<Program> {
    let mut out = vec![];
    let mut cur = vec![];
    for line in text.lines() {
        if line == "---" {
            out.push(std::mem::take(&mut cur));
            continue;
        }
        let f: Vec<&str> = line.split(' ').collect();
        cur.push(Cmd {
            t: f[1].parse().unwrap(),
            op: f[0].into(),
            w: f[2].parse().unwrap(),
            arg: f[3..].iter().map(|s| s.to_string()).collect(),
        });
    }
    out
}

struct Slot {
    wr: Option<Box<dyn Wr>>,
    p: Option<Ptr>,
    cc: Option<&'static Conv>,
}
struct Shared {
    prog: Program,
    pc: usize,
    // thread executing a command (0: none)
    busy: i64,
    done: Vec<bool>,
    slots: Vec<Slot>,
    ended: bool,
    free: bool,
    // decides on conventions and sizes; starts at a value that depends on the program
    made: usize,
}
unsafe impl Send for Shared {}

static SHARED: Mutex<Shared> = Mutex::new(Shared {
    prog: Vec::new(),
    pc: 0,
    busy: 0,
    done: Vec::new(),
    slots: Vec::new(),
    ended: false,
    free: false,
    made: 0,
});
static TURN: Condvar = Condvar::new();

thread_local! {
    // free mode: this thread's own program and position
    static MINE: RefCell<(Program, usize)> = const { RefCell::new((Vec::new(), 0)) };
    // wrapper whose drop (of this thread) still waits for its closure's destructor
    static DROPPING: RefCell<Vec<(i64, bool)>> = const { RefCell::new(Vec::new()) };
    // call depth marker: has the body of the innermost call run
    static RAN: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}

fn sh() -> std::sync::MutexGuard<'static, Shared> {
    SHARED.lock().unwrap_or_else(|e| e.into_inner())
}

/// Next command of this thread, or None when the program is over (for this thread).
fn fetch() -> Option<Cmd> {
    let me = tid();
    let mut s = sh();
    if s.free {
        drop(s);
        return MINE.with(|m| {
            let mut m = m.borrow_mut();
            let c = m.0.get(m.1).cloned();
            if c.is_some() {
                m.1 += 1;
            }
            c
        });
    }
    if s.busy == me {
        s.busy = 0;
        TURN.notify_all();
    }
    loop {
        if s.busy != 0 {
            // wait for the command in progress
        } else if s.ended || s.pc >= s.prog.len() {
            // finish one thread after the other
            s.ended = true;
            let first = s.done.iter().position(|d| !d).map(|i| i as i64 + 1);
            if first == Some(me) || first.is_none() {
                return None;
            }
            TURN.notify_all();
        } else if s.prog[s.pc].t == me {
            let c = s.prog[s.pc].clone();
            s.pc += 1;
            s.busy = me;
            return Some(c);
        }
        s = TURN.wait(s).unwrap_or_else(|e| e.into_inner());
    }
}

/// Give the turn back to whoever is next.
fn desync(why: &str) {
    event(|_, l| l.put(|o| o.s("e", "desync").n("t", tid()).s("why", why)));
    let mut s = sh();
    s.ended = true;
    MINE.with(|m| {
        let mut m = m.borrow_mut();
        m.1 = m.0.len();
    });
    TURN.notify_all();
}

enum Exit {
    Done,
    Panic,
}

/// Run commands until the current scope ("top", "call" or "drop") ends.
fn interpret(scope: &str) -> Exit {
    loop {
        let Some(c) = fetch() else { return Exit::Done };
        match (c.op.as_str(), scope) {
            ("nop", _) => {}
            ("ret", "call") | ("dret", "drop") => return Exit::Done,
            ("panic", "call") | ("dpanic", "drop") => return Exit::Panic,
            ("ret" | "panic" | "dret" | "dpanic", _) => {
                desync(if c.op.starts_with('d') { "drop" } else { "call" });
                return Exit::Done;
            }
            _ => step(&c),
        }
    }
}

fn take(w: i64) -> Option<Box<dyn Wr>> {
    sh().slots[w as usize].wr.take()
}

fn step(c: &Cmd) {
    let t = tid();
    match c.op.as_str() {
        "ctor" => {
            let mode = c.arg[4].as_str();
            let spec = Spec {
                w: c.w,
                kind: &c.arg[0],
                cap: &c.arg[1],
                store: &c.arg[2],
                how: &c.arg[3],
                bad: mode == "noreloc",
                uw: c.arg[5] == "true",
                a: c.arg[6].parse().unwrap(),
                odd: sh().made % 3 == 0,
            };
            let chosen: usize = c.arg[7].parse().unwrap();
            let cc = wrappers::convention(&spec, if chosen > 0 { chosen - 1 } else { sh().made / 3 });
            sh().made += 1;
            // only the first wrappers have zero-sized closures of their own
            let cap = if spec.cap == "zst" && spec.w as usize > wrappers::NZ { "small" } else { spec.cap };
            let want = if spec.how.starts_with("try") { "err" } else { "panic" };
            event(|_, l| {
                l.put(|o| {
                    o.s("e", "ctor_b")
                        .n("t", t)
                        .n("w", c.w)
                        .s("kind", spec.kind)
                        .s("cap", cap)
                        .s("cc", cc.name)
                        .n("a", spec.a)
                        .b("ref", spec.bad)
                        .s("want", want)
                })
            });
            REFUSE.with(|r| r.set(mode == "noalloc"));
            let (made, heap) = wrappers::make(&spec, cc);
            REFUSE.with(|r| r.set(false));
            let _p = heap::Pause::new();
            let (res, p) = match &made {
                Made::Ok(w) => ("ok", w.bare()),
                Made::Err => ("err", None),
                Made::Panic => ("panic", None),
            };
            event(|s, l| {
                let (k, b, o) = p.map_or((0, 0, 0), |p| s.token(p));
                l.put(|w| {
                    w.s("e", "ctor_e")
                        .n("t", t)
                        .n("w", c.w)
                        .s("res", res)
                        .n("p", k)
                        .n("pb", b)
                        .n("po", o)
                        .n("heap", heap)
                })
            });
            if let Made::Ok(w) = made {
                let mut s = sh();
                s.slots[c.w as usize] = Slot { wr: Some(w), p, cc: Some(cc) };
            }
        }
        "bare" => {
            let p = {
                let s = sh();
                let slot = &s.slots[c.w as usize];
                slot.wr.as_ref().and_then(|w| w.bare())
            };
            if let Some(p) = p {
                event(|s, l| {
                    let (k, b, o) = s.token(p);
                    l.put(|w| w.s("e", "bare").n("t", t).n("w", c.w).n("p", k).n("pb", b).n("po", o))
                });
                sh().slots[c.w as usize].p = Some(p);
            }
        }
        "conv" => {
            let Some(w) = take(c.w) else { return };
            event(|_, l| l.put(|o| o.s("e", "conv_b").n("t", t).n("w", c.w)));
            let (w, heap) = w.conv(&c.arg[0], &c.arg[1]);
            let p = w.bare();
            let form = if c.arg[0] == "untyped" || c.arg[0] == "into" { "untyped" } else { "same" };
            event(|s, l| {
                let (k, b, o) = p.map_or((0, 0, 0), |p| s.token(p));
                l.put(|w| {
                    w.s("e", "conv_e")
                        .n("t", t)
                        .n("w", c.w)
                        .s("form", form)
                        .n("p", k)
                        .n("pb", b)
                        .n("po", o)
                        .n("heap", heap)
                })
            });
            let mut s = sh();
            s.slots[c.w as usize].wr = Some(w);
            s.slots[c.w as usize].p = p;
        }
        "leak" => {
            let Some(w) = take(c.w) else { return };
            event(|_, l| l.put(|o| o.s("e", "conv_b").n("t", t).n("w", c.w)));
            let p = w.leak();
            event(|s, l| {
                let (k, b, o) = s.token(p);
                l.put(|w| w.s("e", "leak_e").n("t", t).n("w", c.w).n("p", k).n("pb", b).n("po", o))
            });
            sh().slots[c.w as usize].p = Some(p);
        }
        "call" => {
            let (p, cc) = {
                let s = sh();
                let slot = &s.slots[c.w as usize];
                (slot.p, slot.cc)
            };
            let (Some(p), Some(cc)) = (p, cc) else { return };
            let x: u32 = c.arg[0].parse().unwrap();
            event(|s, l| {
                let (k, _, _) = s.token(p);
                l.put(|w| w.s("e", "call_b").n("t", t).n("w", c.w).n("p", k).n("x", x as i64))
            });
            RAN.with(|r| r.borrow_mut().push(0));
            let tok = Tok { x, y: !x };
            let r = std::panic::catch_unwind(move || unsafe { (cc.call)(p, tok) });
            let ran = RAN.with(|r| r.borrow_mut().pop()).unwrap_or(0);
            let (r, pan) = match r {
                Ok(v) => (v, false),
                Err(e) => (e.downcast_ref::<u64>().copied().unwrap_or(u64::MAX), true),
            };
            let r = if r < 1 << 30 { r as i64 } else { -1 };
            event(|_, l| {
                l.put(|o| o.s("e", "call_e").n("t", t).n("w", c.w).n("r", r).b("pan", pan))
            });
            if ran != 1 {
                desync("call");
            }
        }
        "drop" => {
            let Some(w) = take(c.w) else { return };
            let unwinding = c.arg[0] == "unwind";
            event(|_, l| l.put(|o| o.s("e", "drop_b").n("t", t).n("w", c.w).b("uw", unwinding)));
            DROPPING.with(|d| d.borrow_mut().push((c.w, false)));
            let n = heap::net();
            let res = destroy(w, unwinding);
            let d = heap::net() - n;
            let (_, ran) = DROPPING.with(|d| d.borrow_mut().pop()).unwrap();
            event(|_, l| {
                l.put(|o| {
                    o.s("e", "drop_e").n("t", t).n("w", c.w).b("pan", res.is_err()).n("heap", d)
                })
            });
            if !ran {
                desync("drop");
            }
        }
        op => {
            eprintln!("harness: unknown command {op}");
            std::process::exit(4)
        }
    }
}

fn destroy(w: Box<dyn Wr>, unwinding: bool) -> Result<(), ()> {
    // the box itself belongs to the harness
    let n = heap::net();
    let size = std::mem::size_of_val(&*w) as i64;
    let r = if unwinding { w.unwind() } else { w.destroy() };
    let d = heap::net() - n;
    heap::set(n + d + size);
    r
}

/// `w` goes out of scope because of a panic.
pub fn leave_by_panic<W>(w: W) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _owner = w;
        std::panic::panic_any(8u64);
    }));
    drop(r);
}

/// Called from every closure body.
pub fn body(state: &dyn State, tok: Tok) -> u64 {
    let pause = heap::Pause::new();
    let (mut c, mut n) = (0, 0);
    let x = if tok.y == !tok.x { tok.x as i64 } else { -1 };
    event(|_, l| {
        c = state.id();
        n = state.bump();
        l.put(|o| o.s("e", "body").n("t", tid()).n("c", c).n("x", x).n("n", n))
    });
    let first = RAN.with(|r| match r.borrow_mut().last_mut() {
        Some(k) => {
            *k += 1;
            *k == 1
        }
        None => false,
    });
    let exit = if first { interpret("call") } else { Exit::Done };
    let v = (c * 10000 + n * 100 + x) as u64;
    match exit {
        Exit::Done => {
            drop(tok);
            v
        }
        Exit::Panic => {
            event(|_, l| l.put(|o| o.s("e", "throw").n("t", tid())));
            drop(pause);
            std::panic::panic_any(1_000_000 + v);
        }
    }
}

/// Called from every closure destructor, after the event is recorded.
pub fn in_destructor(c: i64) {
    let mine = DROPPING.with(|d| match d.borrow_mut().last_mut() {
        Some(e) if e.0 == c && !e.1 => {
            e.1 = true;
            true
        }
        _ => false,
    });
    if !mine {
        return;
    }
    let pause = heap::Pause::new();
    match interpret("drop") {
        Exit::Done => {}
        Exit::Panic => {
            event(|_, l| l.put(|o| o.s("e", "throw").n("t", tid())));
            drop(pause);
            std::panic::panic_any(7u64);
        }
    }
}

pub fn run(p: &Program, index: usize, seed: u64, free: bool) {
    let threads = p.iter().map(|c| c.t).max().unwrap_or(1).max(1);
    let wmax = p.iter().map(|c| c.w).max().unwrap_or(0).max(1) as usize;
    jit::reset(seed.wrapping_mul(1_000_003).wrapping_add(index as u64 + 1), free);
    wrappers::reset_zst();
    crate::log::emit(|o| o.s("e", "reset").n("i", index as i64));
    {
        let mut s = sh();
        s.prog = p.clone();
        s.pc = 0;
        s.busy = 0;
        s.done = vec![false; threads as usize];
        s.slots = (0..=wmax).map(|_| Slot { wr: None, p: None, cc: None }).collect();
        s.ended = false;
        s.free = free;
        let text = p.iter().flat_map(|c| c.op.bytes().chain(c.arg.iter().flat_map(|a| a.bytes())));
        s.made = text.fold(seed as usize, |h, b| h.wrapping_mul(31).wrapping_add(b as usize)) % 1009;
    }
    // commands of thread 0 happen before and after everything else
    let pre: Program = p.iter().filter(|c| c.t == 0).cloned().collect();
    TID.with(|t| t.set(1));
    if free {
        for c in &pre {
            step(c);
        }
    }
    let mut joins = vec![];
    let go = std::sync::Arc::new(std::sync::Barrier::new(if free { threads as usize } else { 1 }));
    for t in 2..=threads {
        let mine: Program = p.iter().filter(|c| c.t == t).cloned().collect();
        let go = go.clone();
        joins.push(std::thread::spawn(move || {
            TID.with(|k| k.set(t));
            if free {
                MINE.with(|m| *m.borrow_mut() = (mine.clone(), 0));
                go.wait();
            }
            interpret("top");
            if free {
                cleanup(Some(&mine));
            }
            finished(t);
        }));
    }
    if free {
        let mine: Program = p.iter().filter(|c| c.t == 1).cloned().collect();
        MINE.with(|m| *m.borrow_mut() = (mine.clone(), 0));
        go.wait();
        interpret("top");
        cleanup(Some(&mine));
    } else {
        interpret("top");
    }
    finished(1);
    for j in joins {
        let _ = j.join();
    }
    cleanup(None);
}

fn finished(t: i64) {
    sh().done[t as usize - 1] = true;
    TURN.notify_all();
}

/// Drop what is left (of the wrappers this thread made).
fn cleanup(mine: Option<&Program>) {
    let n = sh().slots.len();
    for w in 1..n as i64 {
        if let Some(m) = mine {
            if !m.iter().any(|c| c.op == "ctor" && c.w == w) {
                continue;
            }
        }
        let live = sh().slots[w as usize].wr.is_some();
        if live {
            step(&Cmd { t: tid(), op: "drop".into(), w, arg: vec!["plain".into()] });
        }
    }
}
