//! A virtual clock: `clock_gettime` of this executable answers from a per-thread script when one is set.
use std::cell::{Cell, RefCell};

thread_local! {
    static NOW: Cell<Option<u64>> = const { Cell::new(None) };
    static READS: Cell<u64> = const { Cell::new(0) };
    static STEP: Cell<u64> = const { Cell::new(0) };
    /// (read number, jump in ns): applied before that read is answered.
    static JUMPS: RefCell<Vec<(u64, u64)>> = const { RefCell::new(Vec::new()) };
}

fn real(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    unsafe { libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, ts) as libc::c_int }
}

pub fn real_now_ns() -> u64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    real(libc::CLOCK_MONOTONIC, &mut ts);
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

#[no_mangle]
pub extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if let Ok(Some(now)) = NOW.try_with(|n| n.get()) {
        let r = READS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let mut t = now + STEP.with(|s| s.get());
        JUMPS.with(|j| {
            if let Ok(j) = j.try_borrow() {
                for (k, d) in j.iter() {
                    if *k == r {
                        t += d;
                    }
                }
            }
        });
        NOW.with(|n| n.set(Some(t)));
        unsafe {
            (*ts).tv_sec = (t / 1_000_000_000) as _;
            (*ts).tv_nsec = (t % 1_000_000_000) as _;
        }
        return 0;
    }
    real(id, ts)
}

/// Start virtual time on this thread; every read advances it by `step` ns.
pub fn start(now: u64, step: u64, jumps: Vec<(u64, u64)>) {
    JUMPS.with(|j| *j.borrow_mut() = jumps);
    STEP.with(|s| s.set(step));
    READS.with(|c| c.set(0));
    NOW.with(|n| n.set(Some(now)));
}
pub fn advance(ns: u64) {
    NOW.with(|n| n.set(n.get().map(|t| t + ns)));
}
pub fn set_step(step: u64) {
    STEP.with(|s| s.set(step));
}
pub fn now() -> Option<u64> {
    NOW.with(|n| n.get())
}
pub fn reads() -> u64 {
    READS.with(|c| c.get())
}
pub fn clear() {
    NOW.with(|n| n.set(None));
}
