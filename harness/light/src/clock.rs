//! Takes over `clock_gettime` for this binary so that a case can set the wall
//! clock its own thread sees. Threads that set nothing see the real clock.
use std::cell::Cell;

thread_local! {
    static WALL: Cell<Option<i128>> = const { Cell::new(None) };
}

/// Sets the wall clock of this thread (nanoseconds since the epoch).
pub fn set(ns: Option<i128>) {
    WALL.with(|w| w.set(ns));
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        if let Ok(Some(ns)) = WALL.try_with(|w| w.get()) {
            (*ts).tv_sec = ns.div_euclid(1_000_000_000) as libc::time_t;
            (*ts).tv_nsec = ns.rem_euclid(1_000_000_000) as _;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// Restores the real clock when dropped.
pub struct Restore;
impl Drop for Restore {
    fn drop(&mut self) {
        set(None);
    }
}
