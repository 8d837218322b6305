//! Stops a child process at a chosen file operation. The file functions of libc that std calls are defined here, so that
//! the operations of the real code pass through; outside such a child they only pass the call on.
use libc::{c_char, c_int, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
use std::sync::{
    atomic::{AtomicBool, AtomicI64, Ordering::SeqCst},
    Mutex,
};

static ACTIVE: AtomicBool = AtomicBool::new(false);
static MACHINE: AtomicBool = AtomicBool::new(false);
static LEFT: AtomicI64 = AtomicI64::new(0);
/// a file opened for writing: its descriptor (-1 once closed), one of our own, and how much of it is on the disk
struct Open {
    fd: c_int,
    own: c_int,
    durable: i64,
    dirty: bool,
}
static OPEN: Mutex<Vec<Open>> = Mutex::new(vec![]);

fn size(fd: c_int) -> i64 {
    unsafe { libc::lseek64(fd, 0, libc::SEEK_END) }
}
/// the process, or the machine, stops here; what was not synchronised is lost when the machine does
fn stop() -> ! {
    ACTIVE.store(false, SeqCst);
    if MACHINE.load(SeqCst) {
        for o in OPEN.lock().unwrap().iter() {
            if o.dirty {
                unsafe { libc::ftruncate64(o.own, o.durable.min(size(o.own))) };
            }
        }
    }
    unsafe { libc::_exit(42) }
}
fn op() {
    if ACTIVE.load(SeqCst) && LEFT.fetch_sub(1, SeqCst) <= 0 {
        stop()
    }
}
fn last() -> bool {
    ACTIVE.load(SeqCst) && LEFT.load(SeqCst) <= 0
}
fn wrote(fd: c_int) {
    if ACTIVE.load(SeqCst) {
        if let Some(o) = OPEN.lock().unwrap().iter_mut().find(|o| o.fd == fd) {
            o.dirty = true;
        }
    }
}
fn synced(fd: c_int) {
    if ACTIVE.load(SeqCst) {
        if let Some(o) = OPEN.lock().unwrap().iter_mut().find(|o| o.fd == fd) {
            o.dirty = false;
            o.durable = size(o.own);
        }
    }
}
fn opened(fd: c_int, path: *const c_char, flags: c_int) {
    if ACTIVE.load(SeqCst) && fd >= 0 && flags & libc::O_ACCMODE != libc::O_RDONLY {
        let own = unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, libc::O_RDWR | libc::O_CLOEXEC, 0) } as c_int;
        if own >= 0 {
            let n = size(own);
            OPEN.lock().unwrap().push(Open { fd, own, durable: n, dirty: flags & libc::O_TRUNC != 0 });
        }
    }
}

/// runs `f` in a child that stops at file operation `at`; true if it got that far
pub fn child(at: i64, machine: bool, f: impl FnOnce()) -> bool {
    unsafe {
        match libc::fork() {
            -1 => panic!("fork failed"),
            0 => {
                MACHINE.store(machine, SeqCst);
                LEFT.store(at, SeqCst);
                ACTIVE.store(true, SeqCst);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                if machine {
                    stop()
                }
                libc::_exit(0)
            }
            pid => {
                let mut s = 0;
                while libc::waitpid(pid, &mut s, 0) == -1 {}
                libc::WIFEXITED(s) && libc::WEXITSTATUS(s) == 42
            }
        }
    }
}

unsafe fn do_open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if ACTIVE.load(SeqCst) && flags & libc::O_ACCMODE != libc::O_RDONLY {
        op();
    }
    let r = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int;
    opened(r, p, flags);
    r
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if last() {
        // stopped in the middle of it
        libc::syscall(libc::SYS_write, fd, b, n / 2);
        wrote(fd);
    }
    op();
    wrote(fd);
    libc::syscall(libc::SYS_write, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    op();
    wrote(fd);
    libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    op();
    wrote(fd);
    libc::syscall(libc::SYS_pwrite64, fd, b, n, o) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: libc::c_uint) -> ssize_t {
    op();
    wrote(b);
    libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, f) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    op();
    wrote(o);
    libc::syscall(libc::SYS_sendfile, o, i, off, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    op();
    wrote(fd);
    libc::syscall(libc::SYS_ftruncate, fd, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    op();
    let r = libc::syscall(libc::SYS_fsync, fd) as c_int;
    synced(fd);
    r
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    op();
    let r = libc::syscall(libc::SYS_fdatasync, fd) as c_int;
    synced(fd);
    r
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ACTIVE.load(SeqCst) {
        for o in OPEN.lock().unwrap().iter_mut() {
            if o.fd == fd {
                o.fd = -1;
            }
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    op();
    libc::syscall(libc::SYS_renameat, libc::AT_FDCWD, a, libc::AT_FDCWD, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    op();
    libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, p, 0) as c_int
}
