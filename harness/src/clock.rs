//! A clock that jumps: stands in front of `clock_gettime` of the C library, for threads that ask for it.
use std::cell::Cell;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicI64, AtomicPtr, Ordering::SeqCst};

/// What is added to the clocks, in nanoseconds.
#[derive(Default)]
pub struct Sim {
    /// to all clocks
    mono: AtomicI64,
    /// to the time of day
    wall: AtomicI64,
    /// The time of day stands still (0: it does not).
    frozen: AtomicI64,
    /// The other clocks stand still but for jumps (0: they do not).
    stopped: AtomicI64,
}

/// Intervals reach to 2^48 ns.
const FAR: i64 = 3 << 46;

thread_local! {
    static ON: Cell<*const Sim> = const { Cell::new(std::ptr::null()) };
}

pub struct Guard(*const Sim);
impl Drop for Guard {
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0));
    }
}

impl Sim {
    /// For the current thread, until the guard is dropped (before `self` is).
    pub fn enter(&self) -> Guard {
        Guard(ON.with(|o| o.replace(self)))
    }
    /// Time passes.
    pub fn jump(&self, ns: u64) {
        let _ = self.mono.fetch_update(SeqCst, SeqCst, |m| m.checked_add_unsigned(ns).filter(|m| *m < FAR));
    }
    /// From here on, time passes by jumps only (but for the time of day).
    pub fn stop(&self) {
        self.stopped.store(1_000_000_000_000, SeqCst);
    }
    pub fn is_stopped(&self) -> bool {
        self.stopped.load(SeqCst) != 0
    }
    /// The time of day is set.
    pub fn set_wall(&self, ns: i64) {
        self.wall.store(ns, SeqCst);
    }
    /// The time of day stands still at `ns` after the epoch.
    pub fn freeze(&self, ns: i64) {
        self.frozen.store(ns.max(1), SeqCst);
    }
}

type F = unsafe extern "C" fn(c_int, *mut libc::timespec) -> c_int;
static NEXT: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut libc::timespec) -> c_int {
    let mut f = NEXT.load(SeqCst);
    if f.is_null() {
        f = libc::dlsym(libc::RTLD_NEXT, b"clock_gettime\0".as_ptr() as *const c_char);
        if f.is_null() {
            libc::abort();
        }
        NEXT.store(f, SeqCst);
    }
    let r = std::mem::transmute::<*mut c_void, F>(f)(id, t);
    let sim = ON.with(|o| o.get());
    if r == 0 && !sim.is_null() {
        let stopped = (*sim).stopped.load(SeqCst);
        if stopped != 0 && matches!(id, libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME) {
            let now = stopped + (*sim).mono.load(SeqCst);
            (*t).tv_sec = (now / 1_000_000_000) as libc::time_t;
            (*t).tv_nsec = (now % 1_000_000_000) as _;
            return r;
        }
        let mut add = 0;
        match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => add = (*sim).mono.load(SeqCst) + (*sim).wall.load(SeqCst),
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => add = (*sim).mono.load(SeqCst),
            _ => {}
        }
        let frozen = (*sim).frozen.load(SeqCst);
        if frozen != 0 && matches!(id, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI) {
            (*t).tv_sec = (frozen / 1_000_000_000) as libc::time_t;
            (*t).tv_nsec = (frozen % 1_000_000_000) as _;
            return r;
        }
        let n = (*t).tv_nsec as i64 + add % 1_000_000_000;
        (*t).tv_sec += (add / 1_000_000_000 + n.div_euclid(1_000_000_000)) as libc::time_t;
        (*t).tv_nsec = n.rem_euclid(1_000_000_000) as _;
    }
    r
}
