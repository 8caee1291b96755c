//! Faults at single calls that write: these stand in front of the functions of the C library.
use libc::{c_int, c_void, iovec, size_t, ssize_t};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    /// the call stores only a part, the next one fails; all others work
    Error(u8),
    /// the call stores only a part, then the process ends
    Die,
    /// all calls store at most some bytes
    Short,
    /// every other call is interrupted
    Interrupted,
}

static ON: AtomicBool = AtomicBool::new(false);
static KIND: AtomicU8 = AtomicU8::new(0);
static CALL: AtomicU64 = AtomicU64::new(0);
static PART: AtomicU64 = AtomicU64::new(0);
static ERRNO: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);

/// From now on, calls that write to files (not to the standard streams) are counted, and this
/// happens at the given call (counted from 0) after a part (of 65536) of its bytes.
pub fn arm(kind: Option<Kind>, call: u64, part: u16) {
    COUNT.store(0, SeqCst);
    FIRED.store(0, SeqCst);
    CALL.store(call, SeqCst);
    PART.store(part as u64, SeqCst);
    let (k, e) = match kind {
        None => (0, 0),
        Some(Kind::Error(e)) => (1, [libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG][e as usize % 4]),
        Some(Kind::Die) => (2, 0),
        Some(Kind::Short) => (3, 0),
        Some(Kind::Interrupted) => (4, 0),
    };
    KIND.store(k, SeqCst);
    ERRNO.store(e as i64, SeqCst);
    ON.store(true, SeqCst);
}

/// The number of calls since then.
pub fn disarm() -> u64 {
    ON.store(false, SeqCst);
    COUNT.load(SeqCst)
}

pub fn fired() -> bool {
    FIRED.load(SeqCst) > 0
}

unsafe fn raw(nr: libc::c_long, fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let r: ssize_t;
    std::arch::asm!("syscall", inlateout("rax") nr as ssize_t => r, in("rdi") fd as ssize_t, in("rsi") b, in("rdx") n, lateout("rcx") _, lateout("r11") _, options(nostack));
    result(r)
}

unsafe fn result(r: ssize_t) -> ssize_t {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if fd <= 2 || !ON.load(SeqCst) {
        return raw(libc::SYS_write, fd, b, n);
    }
    let call = COUNT.fetch_add(1, SeqCst);
    let at = CALL.load(SeqCst);
    let part = (n as u64 * PART.load(SeqCst) >> 16) as usize;
    match KIND.load(SeqCst) {
        1 if call == at && part > 0 => {
            // the rest is tried with the next call
            CALL.store(at + 1, SeqCst);
            PART.store(0, SeqCst);
            raw(libc::SYS_write, fd, b, part)
        }
        1 if call == at => {
            FIRED.store(1, SeqCst);
            result(-ERRNO.load(SeqCst) as ssize_t)
        }
        2 if call == at => {
            raw(libc::SYS_write, fd, b, part);
            libc::_exit(50)
        }
        3 => {
            FIRED.store(1, SeqCst);
            raw(libc::SYS_write, fd, b, n.min((n / 256 + 1).max(part)))
        }
        4 if call % 2 == at % 2 => {
            FIRED.store(1, SeqCst);
            result(-libc::EINTR as ssize_t)
        }
        _ => raw(libc::SYS_write, fd, b, n),
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, k: c_int) -> ssize_t {
    if fd <= 2 || !ON.load(SeqCst) {
        return raw(libc::SYS_writev, fd, v as *const c_void, k as size_t);
    }
    for i in 0..k.max(0) as usize {
        let v = &*v.add(i);
        if v.iov_len > 0 {
            return write(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
