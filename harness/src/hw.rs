//! A simulated machine with hardware counters for C24. While a machine is switched on for a
//! thread, its `perf_event_open` calls are answered here (through the `syscall` symbol), the
//! `rdpmc` instruction, which the sandbox does not allow, is answered by the handler of the
//! fault it raises, and so is `cpuid` where the processor can be told to refuse it.
use libc::{c_int, c_long, c_void};
use std::cell::Cell;
use std::sync::Once;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Truth {
    /// instructions of the program in user space
    pub user: u64,
    /// hardware interrupts and exceptions while in user space: one instruction too many each
    pub irqs: u64,
    pub exceptions: u64,
    /// instructions in the kernel, in a hypervisor
    pub kernel: u64,
}

impl Truth {
    pub fn instructions(&self) -> u64 {
        self.user + self.irqs + self.exceptions
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    Instructions,
    Irqs,
    Raw0420,
    SpecLock,
    Cycles,
    Junk,
}

#[derive(Clone, Debug)]
pub struct Reg {
    pub what: What,
    flags: u64,
    cpu: i64,
    index: u32,
    width: u16,
    raw: u64,
    fd: c_int,
    ino: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Broken {
    /// perf_event_open fails
    Open(i32),
    /// the file cannot be mapped
    Map,
    /// no access from user space (true: with the old, broken capability bit)
    NoAccess(bool),
    NoRegister,
    Width(u16),
}

/// Which events the raw codes mean.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Events {
    AmdOld,
    AmdZen,
    IntelOld,
    IntelNew,
    Other,
}

pub struct Machine {
    pub events: Events,
    /// vendor and version (leaf 1 eax); None: the real processor
    pub cpuid: Option<([u8; 12], u32)>,
    pub start: Vec<i64>,
    pub index: Vec<u32>,
    pub broken: Vec<(What, Broken)>,
    /// instructions executed at each reading (0: time stands still)
    pub jitter: u64,
    pub truth: Truth,
    pub regs: Vec<Reg>,
    pub reads: u64,
    pub errors: Vec<&'static str>,
    cpuids: u64,
}

thread_local! {
    static ON: Cell<*mut Machine> = const { Cell::new(std::ptr::null_mut()) };
}

unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// Stands in front of the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r = if n == libc::SYS_perf_event_open {
        let m = ON.with(|o| o.get());
        if m.is_null() {
            -(libc::EACCES as c_long)
        } else {
            (*m).open(a as *const u8, b as c_int, c as c_int, e as u64)
        }
    } else {
        raw(n, a, b, c, d, e, f)
    };
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}

const CPUID_GET: c_long = 0x1011;
const CPUID_SET: c_long = 0x1012;

unsafe fn cpuid_allowed(on: bool) -> bool {
    raw(libc::SYS_arch_prctl, CPUID_SET, on as c_long, 0, 0, 0, 0) == 0
}

unsafe extern "C" fn on_fault(sig: c_int, info: *mut libc::siginfo_t, ctx: *mut c_void) {
    let m = ON.with(|o| o.get());
    let u = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut u.uc_mcontext.gregs;
    if !m.is_null() && (*info).si_code == 0x80 {
        let rip = g[libc::REG_RIP as usize] as *const u8;
        match (*rip, *rip.add(1)) {
            (0x0F, 0x33) => {
                let v = (*m).rdpmc(g[libc::REG_RCX as usize] as u32);
                g[libc::REG_RAX as usize] = (v & 0xFFFF_FFFF) as i64;
                g[libc::REG_RDX as usize] = (v >> 32) as i64;
                g[libc::REG_RIP as usize] += 2;
                return;
            }
            (0x0F, 0xA2) => {
                let (leaf, sub) = (g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
                cpuid_allowed(true);
                let mut c = std::arch::x86_64::__cpuid_count(leaf, sub);
                cpuid_allowed(false);
                (*m).cpuids += 1;
                if let Some((v, version)) = &(*m).cpuid {
                    let w = |i: usize| u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]);
                    match leaf {
                        0 => (c.ebx, c.edx, c.ecx) = (w(0), w(4), w(8)),
                        1 => c.eax = *version,
                        _ => {}
                    }
                }
                g[libc::REG_RAX as usize] = c.eax as i64;
                g[libc::REG_RBX as usize] = c.ebx as i64;
                g[libc::REG_RCX as usize] = c.ecx as i64;
                g[libc::REG_RDX as usize] = c.edx as i64;
                g[libc::REG_RIP as usize] += 2;
                return;
            }
            _ => {}
        }
    }
    // Not ours: the fault happens again with the handler of before.
    let old = &*std::ptr::addr_of!(OLD);
    libc::sigaction(sig, old, std::ptr::null_mut());
}

static mut OLD: libc::sigaction = unsafe { std::mem::zeroed() };

fn install() {
    static DONE: Once = Once::new();
    DONE.call_once(|| unsafe {
        // Features of the real processor are looked up before any simulation.
        let _ = std::is_x86_feature_detected!("avx2");
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_fault as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigemptyset(&mut a.sa_mask);
        if libc::sigaction(libc::SIGSEGV, &a, std::ptr::addr_of_mut!(OLD)) != 0 {
            panic!("harness: sigaction");
        }
    });
}

/// Whether `cpuid` can be simulated here.
pub fn can_cpuid() -> bool {
    unsafe {
        let was = raw(libc::SYS_arch_prctl, CPUID_GET, 0, 0, 0, 0, 0);
        if was != 1 || !cpuid_allowed(false) {
            return false;
        }
        cpuid_allowed(true)
    }
}

impl Machine {
    pub fn new() -> Machine {
        Machine {
            events: Events::IntelNew,
            cpuid: None,
            start: vec![0; 4],
            index: vec![1, 2, 3, 4],
            broken: vec![],
            jitter: 0,
            truth: Truth::default(),
            regs: vec![],
            reads: 0,
            errors: vec![],
            cpuids: 0,
        }
    }

    /// Runs `f` on this machine.
    pub fn with<R>(&mut self, f: impl FnOnce() -> R) -> R {
        install();
        struct Off(bool);
        impl Drop for Off {
            fn drop(&mut self) {
                if self.0 {
                    unsafe { cpuid_allowed(true) };
                }
                ON.with(|o| o.set(std::ptr::null_mut()));
            }
        }
        ON.with(|o| o.set(self));
        let off = Off(self.cpuid.is_some());
        if off.0 && !unsafe { cpuid_allowed(false) } {
            panic!("harness: cpuid");
        }
        f()
    }

    unsafe fn open(&mut self, attr: *const u8, pid: c_int, cpu: c_int, flags: u64) -> c_long {
        let u32_at = |o: usize| attr.add(o).cast::<u32>().read_unaligned();
        let u64_at = |o: usize| attr.add(o).cast::<u64>().read_unaligned();
        let (type_, size, config, bits) = (u32_at(0), u32_at(4), u64_at(8), u64_at(40));
        if size < 64 {
            return -(libc::E2BIG as c_long);
        }
        if pid != 0 && pid as c_long != raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) && pid as c_long != raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) {
            return -(libc::EACCES as c_long);
        }
        let what = match (type_, config) {
            (0, 1) => What::Instructions,
            (0, 0) => What::Cycles,
            (4, 0x00C0) => What::Instructions,
            (4, 0x0420) => What::Raw0420,
            (4, 0x01CB) if self.events == Events::IntelNew => What::Irqs,
            (4, 0x002C) if self.events == Events::AmdZen => What::Irqs,
            (4, 0x00CF) if self.events == Events::AmdOld => What::Irqs,
            (4, 0x0825) if matches!(self.events, Events::AmdOld | Events::AmdZen) => What::SpecLock,
            _ => What::Junk,
        };
        let broken = self.broken.iter().find(|b| b.0 == what).map(|b| b.1);
        if let Some(Broken::Open(e)) = broken {
            return -(e as c_long);
        }
        let cloexec = flags & 8 != 0;
        if let Some(Broken::Map) = broken {
            let mut fds = [0 as c_int; 2];
            if libc::pipe2(fds.as_mut_ptr(), if cloexec { libc::O_CLOEXEC } else { 0 }) != 0 {
                self.errors.push("harness: pipe");
                return -1;
            }
            libc::close(fds[1]);
            self.push(what, bits, cpu, fds[0], 0, 48);
            return fds[0] as c_long;
        }
        let n = self.regs.len();
        let width = if let Some(Broken::Width(w)) = broken { w } else { 48 };
        let index = if let Some(Broken::NoRegister) = broken { 0 } else { self.index[n % self.index.len()] };
        let caps: u64 = match broken {
            Some(Broken::NoAccess(false)) => 2,
            Some(Broken::NoAccess(true)) => 1,
            _ => 2 | 4 | 8,
        };
        let fd = libc::memfd_create(c"vh".as_ptr(), if cloexec { libc::MFD_CLOEXEC } else { 0 });
        let mut page = [0u8; 4096];
        page[8..12].copy_from_slice(&(n as u32 * 2).to_le_bytes());
        page[12..16].copy_from_slice(&index.to_le_bytes());
        page[40..48].copy_from_slice(&caps.to_le_bytes());
        page[48..50].copy_from_slice(&width.to_le_bytes());
        if fd < 0 || libc::write(fd, page.as_ptr().cast(), 4096) != 4096 {
            self.errors.push("harness: memfd");
            return -1;
        }
        self.push(what, bits, cpu, fd, index, width);
        fd as c_long
    }

    fn push(&mut self, what: What, flags: u64, cpu: c_int, fd: c_int, index: u32, width: u16) {
        let mut st: libc::stat = unsafe { std::mem::zeroed() };
        unsafe { libc::fstat(fd, &mut st) };
        let n = self.regs.len();
        let raw = self.start[n % self.start.len()] as u64;
        self.regs.push(Reg { what, flags, cpu: cpu as i64, index, width, raw, fd, ino: st.st_ino });
    }

    /// The program goes on: `t` counts what happens, on processor `cpu`.
    pub fn advance(&mut self, t: Truth, cpu: i64) {
        self.truth.user += t.user;
        self.truth.irqs += t.irqs;
        self.truth.exceptions += t.exceptions;
        self.truth.kernel += t.kernel;
        for r in &mut self.regs {
            let flag = |i: u32| r.flags >> i & 1 == 1;
            if flag(0) || (r.cpu >= 0 && r.cpu != cpu) {
                continue;
            }
            let (user, kernel) = (!flag(4), !flag(5) as u64 + !flag(6) as u64);
            let n = match r.what {
                What::Instructions => t.instructions(),
                What::Irqs => t.irqs,
                What::Raw0420 => t.irqs + t.exceptions,
                What::SpecLock => t.user / 100,
                What::Cycles => t.user.wrapping_mul(3) / 2 + 7,
                What::Junk => (t.user ^ 0x55) % 1013 + 1,
            };
            let k = match r.what {
                What::Irqs | What::Raw0420 => t.kernel / 100 + 1,
                _ => t.kernel,
            };
            r.raw = r.raw.wrapping_add(if user { n } else { 0 }).wrapping_add(k.wrapping_mul(kernel));
        }
    }

    fn rdpmc(&mut self, index: u32) -> u64 {
        self.reads += 1;
        // The last one made owns a register number that is used twice.
        let v = match self.regs.iter().rev().find(|r| r.index != 0 && r.index - 1 == index) {
            Some(r) => {
                if r.width >= 64 {
                    r.raw
                } else {
                    r.raw & ((1 << r.width) - 1)
                }
            }
            None => {
                self.errors.push("a register is read that was not assigned");
                0
            }
        };
        if self.jitter > 0 {
            let n = self.reads;
            let t = Truth { user: self.jitter + n % 5, irqs: (n % 3 == 0) as u64, exceptions: (n % 4 == 1) as u64, kernel: n % 7 * 1000 };
            self.advance(t, (n % 2) as i64);
        }
        v
    }

    /// Files handed out that are still open.
    pub fn open_files(&self) -> usize {
        self.regs
            .iter()
            .filter(|r| {
                let mut st: libc::stat = unsafe { std::mem::zeroed() };
                unsafe { libc::fstat(r.fd, &mut st) == 0 && st.st_ino == r.ino }
            })
            .count()
    }
}
