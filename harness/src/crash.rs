//! Turns the death of the process (stack overflow, abort in a destructor, …) into a verdict with a replay.
use std::ffi::CString;
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};

pub struct Crash {
    /// Where to write the case, and what goes before and after it.
    path: CString,
    head: Vec<u8>,
    line: Vec<u8>,
    case: Box<dyn Fn(&mut dyn FnMut(&[u8])) + Send + Sync>,
}

static CRASH: AtomicPtr<Crash> = AtomicPtr::new(std::ptr::null_mut());

const WHY: &str = "the process dies (stack overflow, abort)";

/// From now on, a crash is the violation of `property` by the case which `case` hands out.
pub fn arm(property: &str, leg: &str, path: &str, case: impl Fn(&mut dyn FnMut(&[u8])) + Send + Sync + 'static) {
    let head = format!("{{\"property\": \"{property}\", \"leg\": \"{leg}\", \"message\": \"{WHY}\", \"case\": ");
    let line = format!("{leg}: {WHY}\nVIOLATION property={property} replay={path}\n");
    let crash = Crash { path: CString::new(path).unwrap(), head: head.into(), line: line.into_bytes(), case: Box::new(case) };
    CRASH.store(Box::into_raw(Box::new(crash)), SeqCst);
    for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = died as extern "C" fn(libc::c_int) as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}

fn all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

extern "C" fn died(sig: libc::c_int) {
    let c = CRASH.swap(std::ptr::null_mut(), SeqCst);
    if c.is_null() {
        // Another thread is at it.
        unsafe {
            libc::sleep(5);
            libc::_exit(128 + sig);
        }
    }
    let c = unsafe { &*c };
    let mut whole = false;
    (c.case)(&mut |case| unsafe {
        let fd = libc::open(c.path.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o644);
        if fd >= 0 {
            all(fd, &c.head);
            all(fd, case);
            all(fd, b"}\n");
            whole = true;
        }
    });
    if !whole {
        unsafe { libc::_exit(128 + sig) }
    }
    all(1, &c.line);
    unsafe { libc::_exit(1) }
}
