//! An execution that takes the whole process down (stack overflow, abort) is a violation as well.
//! The handler runs on the alternate stack and allocates nothing.

use std::cell::Cell;
use std::ffi::CString;
use std::os::raw::c_int;
use std::sync::OnceLock;

type Tail = fn(*const (), &Out);
thread_local! {
    static CURRENT: Cell<Option<(&'static Head, Tail, *const ())>> = const { Cell::new(None) };
}
/// What is being checked, the same for many executions
pub struct Head {
    file: CString,
    violation: String,
    text: String,
}
impl Head {
    pub fn new(property: &str, file: &std::path::Path, text: String) -> &'static Head {
        use std::os::unix::ffi::OsStrExt;
        Box::leak(Box::new(Head {
            file: CString::new(file.as_os_str().as_bytes()).unwrap(),
            violation: format!("VIOLATION property={} replay={}\n", property, file.display()),
            text,
        }))
    }
}
pub struct Out(c_int);
impl Out {
    pub fn bytes(&self, b: &[u8]) {
        let mut b = b;
        while !b.is_empty() {
            let n = unsafe { libc::write(self.0, b.as_ptr().cast(), b.len()) };
            if n <= 0 {
                return;
            }
            b = &b[n as usize..];
        }
    }
    pub fn number(&self, n: u32) {
        let mut d = [0u8; 10];
        let mut i = 10;
        let mut n = n;
        loop {
            i -= 1;
            d[i] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        self.bytes(&d[i..]);
    }
}
/// What this thread runs from now on; `tail` writes the choices made
pub fn enter(head: &'static Head, tail: Tail, data: *const ()) {
    CURRENT.with(|c| c.set(Some((head, tail, data))));
}
pub fn leave() {
    CURRENT.with(|c| c.set(None));
}

extern "C" fn handler(sig: c_int) {
    let what: &[u8] = match sig {
        libc::SIGABRT => b"the process aborts",
        libc::SIGSEGV => b"the stack overflows",
        _ => b"the process is ended by a signal",
    };
    unsafe {
        let current = CURRENT.try_with(|c| c.get()).ok().flatten();
        let Some((head, tail, data)) = current else {
            Out(2).bytes(b"internal error: ");
            Out(2).bytes(what);
            Out(2).bytes(b" outside of an execution\n");
            libc::_exit(2);
        };
        let fd = libc::open(head.file.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o644);
        let f = Out(fd);
        f.bytes(head.text.as_bytes());
        tail(data, &f);
        f.bytes(b"\n# ");
        f.bytes(what);
        f.bytes(b"\n");
        Out(1).bytes(head.violation.as_bytes());
        Out(1).bytes(b"  ");
        Out(1).bytes(what);
        Out(1).bytes(b"\n");
        libc::_exit(1)
    }
}

pub fn install() {
    static DONE: OnceLock<()> = OnceLock::new();
    DONE.get_or_init(|| unsafe {
        for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = handler as extern "C" fn(c_int) as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    });
}
