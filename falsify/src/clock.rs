//! Virtual wall clock: this binary interposes `clock_gettime`, so `SystemTime::now()` in the code under
//! test reads a clock the case controls (frozen at a chosen instant). Other clocks pass through.
use std::sync::atomic::{AtomicI64, Ordering};
static FROZEN_NS: AtomicI64 = AtomicI64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let f = FROZEN_NS.load(Ordering::SeqCst);
    if clk == libc::CLOCK_REALTIME && f != 0 {
        (*ts).tv_sec = f / 1_000_000_000;
        (*ts).tv_nsec = f % 1_000_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

pub struct Frozen;
impl Frozen {
    pub fn at(ns: i64) -> Frozen {
        FROZEN_NS.store(ns, Ordering::SeqCst);
        Frozen
    }
    pub fn advance(&self, ns: i64) {
        FROZEN_NS.fetch_add(ns, Ordering::SeqCst);
    }
    pub fn now(&self) -> i64 {
        FROZEN_NS.load(Ordering::SeqCst)
    }
}
impl Drop for Frozen {
    fn drop(&mut self) {
        FROZEN_NS.store(0, Ordering::SeqCst);
    }
}
