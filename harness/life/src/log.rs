//! The recorded trace: one JSON object per line, written unbuffered so that a crash loses nothing.
use std::sync::{Mutex, MutexGuard};

pub struct Line(pub String);
impl Line {
    pub fn s(&mut self, k: &str, v: &str) -> &mut Self {
        self.sep();
        self.0.push_str(&format!("\"{k}\":\"{v}\""));
        self
    }
    pub fn n(&mut self, k: &str, v: i64) -> &mut Self {
        self.sep();
        self.0.push_str(&format!("\"{k}\":{v}"));
        self
    }
    pub fn b(&mut self, k: &str, v: bool) -> &mut Self {
        self.sep();
        self.0.push_str(&format!("\"{k}\":{v}"));
        self
    }
    fn sep(&mut self) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
    }
}

pub struct Log {
    fd: i32,
}

static LOG: Mutex<Log> = Mutex::new(Log { fd: -1 });

pub fn open(path: &str) {
    let c = std::ffi::CString::new(path).unwrap();
    let fd = unsafe {
        libc::open(c.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND, 0o644)
    };
    assert!(fd >= 0);
    LOG.lock().unwrap().fd = fd;
}

/// Everything that must be atomic with respect to the order of the trace is done under this lock.
pub fn lock() -> MutexGuard<'static, Log> {
    LOG.lock().unwrap_or_else(|e| e.into_inner())
}

impl Log {
    pub fn put(&mut self, f: impl FnOnce(&mut Line) -> &mut Line) {
        let _p = crate::heap::Pause::new();
        let mut l = Line(String::from("{"));
        f(&mut l);
        l.0.push_str("}\n");
        let mut buf = l.0.as_bytes();
        while !buf.is_empty() {
            let n = unsafe { libc::write(self.fd, buf.as_ptr().cast(), buf.len()) };
            if n <= 0 {
                std::process::exit(3);
            }
            buf = &buf[n as usize..];
        }
    }
}

pub fn emit(f: impl FnOnce(&mut Line) -> &mut Line) {
    lock().put(f)
}
