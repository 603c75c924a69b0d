//! Faults on accepted connections: this program's own `accept4` and `setsockopt` take the place of the C
//! library's and fail by script for the listeners that have one. Everything else goes to the kernel.
use std::collections::{HashMap, HashSet, VecDeque};
use std::os::fd::RawFd;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};

use libc::{c_int, c_void, sockaddr, socklen_t};

#[derive(Default)]
pub struct Script {
    /// The next failures, by error number.
    pub errs: VecDeque<i32>,
    /// Fail like this whenever there is nothing else to do.
    pub forever: Option<i32>,
    /// The next connection accepted refuses TCP_NODELAY.
    pub nodelay: bool,
    pub failed: u64,
    /// When the last failure was, by the clock of the runtime.
    pub last: Option<tokio::time::Instant>,
}

static USED: AtomicUsize = AtomicUsize::new(0);
// By inode: a descriptor's number is used again as soon as it is closed.
static SCRIPTS: OnceLock<Mutex<HashMap<u64, Script>>> = OnceLock::new();
static STUBBORN: OnceLock<Mutex<HashSet<RawFd>>> = OnceLock::new();

fn scripts() -> &'static Mutex<HashMap<u64, Script>> {
    SCRIPTS.get_or_init(Default::default)
}
fn stubborn() -> &'static Mutex<HashSet<RawFd>> {
    STUBBORN.get_or_init(Default::default)
}

fn inode(fd: RawFd) -> u64 {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) == 0 {
            st.st_ino
        } else {
            0
        }
    }
}

pub struct Faulty(u64);
impl Faulty {
    pub fn new(fd: RawFd) -> Faulty {
        USED.fetch_add(1, SeqCst);
        let ino = inode(fd);
        scripts().lock().unwrap().insert(ino, Script::default());
        Faulty(ino)
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut Script) -> T) -> T {
        f(scripts().lock().unwrap().get_mut(&self.0).expect("script"))
    }
}
impl Drop for Faulty {
    fn drop(&mut self) {
        scripts().lock().unwrap().remove(&self.0);
        USED.fetch_sub(1, SeqCst);
    }
}

unsafe fn kernel_accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int {
    libc::syscall(libc::SYS_accept4, fd, a, l, flags) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int {
    if USED.load(SeqCst) == 0 {
        return kernel_accept4(fd, a, l, flags);
    }
    let mut nodelay = false;
    if let Some(s) = scripts().lock().unwrap().get_mut(&inode(fd)) {
        // Only fail where there is a connection to fail with.
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        if libc::poll(&mut p, 1, 0) == 1 {
            if let Some(e) = s.errs.pop_front().or(s.forever) {
                s.failed += 1;
                if tokio::runtime::Handle::try_current().is_ok() {
                    s.last = Some(tokio::time::Instant::now());
                }
                *libc::__errno_location() = e;
                return -1;
            }
            nodelay = std::mem::take(&mut s.nodelay);
        }
    }
    let r = kernel_accept4(fd, a, l, flags);
    if nodelay && r >= 0 {
        stubborn().lock().unwrap().insert(r);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, n: socklen_t) -> c_int {
    if USED.load(SeqCst) > 0 && level == libc::IPPROTO_TCP && name == libc::TCP_NODELAY && stubborn().lock().unwrap().remove(&fd)
    {
        *libc::__errno_location() = libc::EINVAL;
        return -1;
    }
    libc::syscall(libc::SYS_setsockopt, fd, level, name, v, n) as c_int
}
