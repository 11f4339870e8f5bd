//! Files that come and go in pieces: `read` and `write` of this executable follow a per-thread plan when one is set.
use std::cell::{Cell, RefCell};

/// What the operating system does with the reads or writes of this thread.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    /// At most so many bytes at once; 0: as many as wanted.
    pub limit: usize,
    /// At the call of that number (from 1 on): at most so many bytes.
    pub short: Option<(u64, usize)>,
    /// At the call of that number: this error.
    pub error: Option<(u64, i32)>,
    /// The error stays from then on.
    pub forever: bool,
}

/// So many failing calls in a row count as never ending.
const ENOUGH: u64 = 20_000;

thread_local! {
    static READ: RefCell<Option<Plan>> = const { RefCell::new(None) };
    static WRITE: RefCell<Option<Plan>> = const { RefCell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
}

/// Answers a call: the error, or how many bytes.
fn answer(plan: &'static std::thread::LocalKey<RefCell<Option<Plan>>>, fd: i32, n: usize) -> Result<usize, i32> {
    if fd <= 2 {
        return Ok(n);
    }
    plan.try_with(|p| {
        let Ok(p) = p.try_borrow() else { return Ok(n) };
        let Some(p) = p.as_ref() else { return Ok(n) };
        let k = CALLS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if let Some((at, e)) = p.error {
            if k == at || (p.forever && k > at) {
                let f = FAILED.with(|f| {
                    f.set(f.get() + 1);
                    f.get()
                });
                // Let a reader or writer that never gives up end.
                return if f > ENOUGH { Ok(0) } else { Err(e) };
            }
        }
        let mut m = n;
        if p.limit > 0 {
            m = m.min(p.limit);
        }
        if let Some((at, x)) = p.short {
            if k == at {
                m = m.min(x);
            }
        }
        Ok(m)
    })
    .unwrap_or(Ok(n))
}

fn fail(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

#[no_mangle]
pub extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    match answer(&READ, fd, n) {
        Ok(0) if n > 0 => 0,
        Ok(m) => unsafe { libc::syscall(libc::SYS_read, fd, buf, m) as libc::ssize_t },
        Err(e) => fail(e),
    }
}

#[no_mangle]
pub extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    match answer(&WRITE, fd, n) {
        Ok(0) if n > 0 => 0,
        Ok(m) => unsafe { libc::syscall(libc::SYS_write, fd, buf, m) as libc::ssize_t },
        Err(e) => fail(e),
    }
}

#[derive(Debug, PartialEq)]
pub struct Seen {
    pub calls: u64,
    pub endless: bool,
}

/// Runs `f` with the reads (or writes) of this thread following the plan.
fn with<R>(which: &'static std::thread::LocalKey<RefCell<Option<Plan>>>, p: &Plan, f: impl FnOnce() -> R) -> (R, Seen) {
    struct Off(&'static std::thread::LocalKey<RefCell<Option<Plan>>>);
    impl Drop for Off {
        fn drop(&mut self) {
            self.0.with(|p| *p.borrow_mut() = None);
        }
    }
    CALLS.with(|c| c.set(0));
    FAILED.with(|c| c.set(0));
    which.with(|x| *x.borrow_mut() = Some(p.clone()));
    let off = Off(which);
    let r = f();
    drop(off);
    (r, Seen { calls: CALLS.with(|c| c.get()), endless: FAILED.with(|c| c.get()) > ENOUGH })
}

pub fn reading<R>(p: &Plan, f: impl FnOnce() -> R) -> (R, Seen) {
    with(&READ, p, f)
}
pub fn writing<R>(p: &Plan, f: impl FnOnce() -> R) -> (R, Seen) {
    with(&WRITE, p, f)
}
