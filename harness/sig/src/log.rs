//! Events, buffered per case.
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static BUF: Mutex<String> = Mutex::new(String::new());

pub fn say(s: &str) {
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(1, b.as_ptr().cast(), b.len()) };
        assert!(n > 0);
        b = &b[n as usize..];
    }
}
pub fn flush() {
    let s = std::mem::take(&mut *BUF.lock().unwrap());
    say(&s);
}
pub fn begin(id: u32) {
    say(&format!("{{\"e\":\"begin\",\"c\":{id}}}\n"));
    unsafe { libc::alarm(20) };
}
pub fn put(s: String) {
    let mut b = BUF.lock().unwrap();
    b.push_str(&s);
    b.push('\n');
}

fn list(a: &[u64]) -> String {
    let mut s = String::from("[");
    for (i, x) in a.iter().enumerate() {
        let _ = write!(s, "{}\"{x:x}\"", if i > 0 { "," } else { "" });
    }
    s + "]"
}
pub fn call(id: u32, a: &[u64]) {
    put(format!("{{\"e\":\"call\",\"c\":{id},\"a\":{}}}", list(a)));
}
pub fn enter(id: u32, cap: bool, a: &[u64]) {
    put(format!("{{\"e\":\"enter\",\"c\":{id},\"cap\":{cap},\"a\":{}}}", list(a)));
}
pub fn leave(id: u32, r: u64) {
    put(format!("{{\"e\":\"leave\",\"c\":{id},\"r\":\"{r:x}\"}}"));
}
pub fn ret(id: u32, r: u64) {
    put(format!("{{\"e\":\"ret\",\"c\":{id},\"r\":\"{r:x}\"}}"));
}
pub fn same(id: u32, p: usize, q: usize) {
    put(format!("{{\"e\":\"same\",\"c\":{id},\"p\":\"{p:x}\",\"q\":\"{q:x}\"}}"));
}
static CALLS: AtomicU64 = AtomicU64::new(0);
/// Completed calls of this case.
pub fn calls() -> u64 {
    CALLS.load(Ordering::SeqCst)
}
pub fn called() {
    CALLS.fetch_add(1, Ordering::SeqCst);
}
pub fn end(id: u32, leaked: i64) {
    let live = crate::val::LIVE.swap(0, Ordering::SeqCst) - leaked;
    CALLS.store(0, Ordering::SeqCst);
    put(format!("{{\"e\":\"end\",\"c\":{id},\"live\":{live}}}"));
}

/// A wrapper, or nothing if the library panics instead of making one.
pub fn built<T>(id: u32, f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Some(t),
        Err(e) => {
            let why = e.downcast_ref::<String>().cloned().unwrap_or_default().replace(['"', '\\', '\n'], " ");
            put(format!("{{\"e\":\"refused\",\"c\":{id},\"why\":\"{why}\"}}"));
            None
        }
    }
}
