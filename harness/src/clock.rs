//! The realtime clock of this process, virtual while SET: std asks libc's clock_gettime, which the
//! definition below replaces for the whole executable.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
static SET: AtomicBool = AtomicBool::new(false);
static SECS: AtomicI64 = AtomicI64::new(0);
static NANOS: AtomicI64 = AtomicI64::new(0);

pub fn set(nanos: i128) {
    SECS.store(nanos.div_euclid(1_000_000_000) as i64, SeqCst);
    NANOS.store(nanos.rem_euclid(1_000_000_000) as i64, SeqCst);
    SET.store(true, SeqCst);
}
pub fn real() {
    SET.store(false, SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME && SET.load(SeqCst) {
        (*ts).tv_sec = SECS.load(SeqCst);
        (*ts).tv_nsec = NANOS.load(SeqCst);
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int
}
