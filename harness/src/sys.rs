//! Process-level control: a virtual wall clock, controllable socket reads and writes, a
//! deterministic entropy source, and quiet stdout. All done by interposing libc symbols in
//! this executable, so the code under test is unmodified.
use std::cell::{Cell, RefCell};
use std::io::Write;
use std::os::raw::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicI32, AtomicI64, Ordering};

thread_local! {
    static FAKE_NS: Cell<u64> = const { Cell::new(0) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static IO_ON: Cell<bool> = const { Cell::new(false) };
    static IO: RefCell<IoPlan> = const { RefCell::new(IoPlan::new()) };
}

/// Base of virtual time, in ns since the epoch.
pub const T0: u64 = 1_700_000_000_123_456_789;

pub fn set_fake_time(ns: u64) { FAKE_NS.with(|c| c.set(ns)); }
pub fn clear_fake_time() { FAKE_NS.with(|c| c.set(0)); }
pub fn set_entropy(seed: u64) { ENTROPY.with(|c| c.set(seed | 1)); }

#[inline(always)]
unsafe fn raw_syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let mut r: isize = n as isize;
    std::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r as c_long
}
unsafe fn ret_errno(r: c_long) -> c_long {
    if (-4095..0).contains(&r) { *libc::__errno_location() = (-r) as c_int; -1 } else { r }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if clk == libc::CLOCK_REALTIME {
        let f = FAKE_NS.with(|c| c.get());
        if f != 0 {
            (*ts).tv_sec = (f / 1_000_000_000) as i64;
            (*ts).tv_nsec = (f % 1_000_000_000) as i64;
            return 0;
        }
    }
    ret_errno(raw_syscall(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
unsafe fn fill_entropy(buf: *mut u8, len: usize) {
    let mut s = ENTROPY.with(|c| c.get());
    for i in 0..len { *buf.add(i) = splitmix(&mut s) as u8; }
    ENTROPY.with(|c| c.set(s | 1));
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if ENTROPY.with(|c| c.get()) != 0 { fill_entropy(buf as *mut u8, len); return len as isize; }
    ret_errno(raw_syscall(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

/// Hold threads up now and then where they lock or signal.
pub static JITTER: AtomicI32 = AtomicI32::new(0);
thread_local! { static HOLD: Cell<u64> = const { Cell::new(0) }; }
static HELD: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
#[inline(never)]
unsafe fn hold_up() {
    let us = HOLD.try_with(|h| {
        let mut s = h.get();
        if s == 0 { s = HELD.fetch_add(1, Ordering::Relaxed).wrapping_mul(0x9E3779B97F4A7C15) | 1; }
        let r = splitmix(&mut s);
        h.set(s);
        if r % 8 != 0 { 0 } else { (r >> 20) % if r >> 61 != 0 { 150 } else { 2500 } }
    }).unwrap_or(0);
    if us > 0 {
        let t = libc::timespec { tv_sec: 0, tv_nsec: us as i64 * 1000 };
        raw_syscall(libc::SYS_nanosleep, &t as *const _ as usize, 0, 0, 0, 0, 0);
    }
}

/// Not 0: sleeps of a second or more take this many milliseconds.
pub static NAP_MS: AtomicI32 = AtomicI32::new(0);
/// The longest of them as it was asked for, in seconds.
pub static LONGEST_NAP: AtomicI64 = AtomicI64::new(0);
unsafe fn short_nap(asked: i64) -> bool {
    let n = NAP_MS.load(Ordering::Relaxed) as i64;
    if n == 0 { return false; }
    LONGEST_NAP.fetch_max(asked, Ordering::Relaxed);
    let t = libc::timespec { tv_sec: n / 1000, tv_nsec: n % 1000 * 1_000_000 };
    raw_syscall(libc::SYS_nanosleep, &t as *const _ as usize, 0, 0, 0, 0, 0);
    true
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(q: *const libc::timespec, rest: *mut libc::timespec) -> c_int {
    if (*q).tv_sec >= 1 && short_nap((*q).tv_sec) { return 0; }
    ret_errno(raw_syscall(libc::SYS_nanosleep, q as usize, rest as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, flags: c_int, q: *const libc::timespec, rest: *mut libc::timespec) -> c_int {
    let mut left = *q;
    if flags & libc::TIMER_ABSTIME != 0 {
        let mut now = std::mem::zeroed::<libc::timespec>();
        raw_syscall(libc::SYS_clock_gettime, c as usize, &mut now as *mut _ as usize, 0, 0, 0, 0);
        let d = (left.tv_sec - now.tv_sec) * 1_000_000_000 + left.tv_nsec - now.tv_nsec + 100_000_000;
        left.tv_sec = d / 1_000_000_000;
    }
    if left.tv_sec >= 1 && short_nap(left.tv_sec) { return 0; }
    -(raw_syscall(libc::SYS_clock_nanosleep, c as usize, flags as usize, q as usize, rest as usize, 0, 0)) as c_int
}

/// Variadic in C; on x86-64 integer varargs arrive in the same registers.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_getrandom && ENTROPY.with(|x| x.get()) != 0 {
        fill_entropy(a as *mut u8, b);
        return b as c_long;
    }
    if n == libc::SYS_futex && JITTER.load(Ordering::Relaxed) != 0 { hold_up(); }
    ret_errno(raw_syscall(n, a, b, c, d, e, f))
}

/// Controls and records recv/send/accept4 of the calling thread while switched on.
pub struct IoPlan {
    /// Largest number of bytes each successive recv may return (empty: no limit); cycled.
    pub recv_sizes: Vec<usize>,
    pub recv_pos: usize,
    /// Fail this recv call (counting from 0) with ECONNRESET.
    pub recv_fail_at: Option<usize>,
    /// Largest number of bytes each successive send may take (empty: no limit); cycled.
    pub send_sizes: Vec<usize>,
    pub send_pos: usize,
    /// Only these socket operations are affected when set: fd of the socket(s) excluded.
    pub exclude: Vec<c_int>,
    /// Blocking reads that could never be satisfied return ECONNRESET and set `blocked`.
    pub no_block: bool,
    /// How long a read waits before it counts as one that could never be satisfied.
    pub block_ms: c_int,
    pub blocked: bool,
    /// The reader kept reading after the end of the stream.
    pub spun: bool,
    pub recv_calls: usize,
    pub recv_bytes: usize,
    pub eof_reads: usize,
    pub send_calls: usize,
    /// Shrink the send buffer of accepted sockets.
    pub small_sndbuf: bool,
}
impl IoPlan {
    pub const fn new() -> IoPlan {
        IoPlan { recv_sizes: Vec::new(), recv_pos: 0, recv_fail_at: None, send_sizes: Vec::new(), send_pos: 0,
            exclude: Vec::new(), no_block: false, block_ms: 0, blocked: false, spun: false, recv_calls: 0, recv_bytes: 0, eof_reads: 0, send_calls: 0,
            small_sndbuf: false }
    }
}
pub fn io_start(plan: IoPlan) { IO.with(|p| *p.borrow_mut() = plan); IO_ON.with(|c| c.set(true)); }
pub fn io_stop() -> IoPlan { IO_ON.with(|c| c.set(false)); IO.with(|p| std::mem::replace(&mut *p.borrow_mut(), IoPlan::new())) }
pub fn io_stat<R>(f: impl FnOnce(&mut IoPlan) -> R) -> R { IO.with(|p| f(&mut p.borrow_mut())) }

pub const MAX_EOF_READS: usize = 20_000;

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: libc::size_t, flags: c_int) -> libc::ssize_t {
    let mut len = len;
    let mut planned = false;
    if IO_ON.with(|c| c.get()) {
        let act = IO.with(|p| {
            let p = &mut *p.borrow_mut();
            if p.exclude.contains(&fd) { return 0; }
            planned = true;
            let call = p.recv_calls;
            p.recv_calls += 1;
            if p.recv_fail_at == Some(call) { return 1; }
            if !p.recv_sizes.is_empty() {
                let cap = p.recv_sizes[p.recv_pos % p.recv_sizes.len()].max(1);
                p.recv_pos += 1;
                len = len.min(cap);
            }
            if p.no_block {
                let mut pf = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
                let r = libc::poll(&mut pf, 1, p.block_ms);
                if r == 0 { p.blocked = true; return 1; }
            }
            0
        });
        if act == 1 { *libc::__errno_location() = libc::ECONNRESET; return -1; }
    }
    let r = ret_errno(raw_syscall(libc::SYS_recvfrom, fd as usize, buf as usize, len, flags as usize, 0, 0)) as isize;
    if planned {
        let spin = IO.with(|p| {
            let p = &mut *p.borrow_mut();
            if r > 0 { p.recv_bytes += r as usize; p.eof_reads = 0; }
            if r == 0 && len > 0 { p.eof_reads += 1; }
            p.eof_reads > MAX_EOF_READS
        });
        if spin {
            IO.with(|p| p.borrow_mut().spun = true);
            *libc::__errno_location() = libc::ECONNRESET;
            return -1;
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: libc::size_t, flags: c_int) -> libc::ssize_t {
    let mut len = len;
    if IO_ON.with(|c| c.get()) {
        IO.with(|p| {
            let p = &mut *p.borrow_mut();
            if p.exclude.contains(&fd) { return; }
            p.send_calls += 1;
            if !p.send_sizes.is_empty() {
                let cap = p.send_sizes[p.send_pos % p.send_sizes.len()].max(1);
                p.send_pos += 1;
                len = len.min(cap);
            }
        });
    }
    ret_errno(raw_syscall(libc::SYS_sendto, fd as usize, buf as usize, len, flags as usize, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, addr: *mut libc::sockaddr, l: *mut libc::socklen_t, flags: c_int) -> c_int {
    let r = ret_errno(raw_syscall(libc::SYS_accept4, fd as usize, addr as usize, l as usize, flags as usize, 0, 0)) as c_int;
    if r >= 0 && IO_ON.with(|c| c.get()) && IO.with(|p| p.borrow().small_sndbuf) {
        let v: c_int = 4096;
        libc::setsockopt(r, libc::SOL_SOCKET, libc::SO_SNDBUF, &v as *const _ as *const c_void, 4);
    }
    r
}

static REAL_STDOUT: AtomicI32 = AtomicI32::new(1);

/// The code under test prints to stdout; keep that out of the check's own output.
pub fn quiet_stdout() {
    unsafe {
        let keep = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 100);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        REAL_STDOUT.store(keep, Ordering::SeqCst);
    }
}
pub fn out(line: &str) {
    let s = format!("{line}\n");
    let fd = REAL_STDOUT.load(Ordering::SeqCst);
    if fd == 1 { let _ = std::io::stdout().write_all(s.as_bytes()); let _ = std::io::stdout().flush(); return; }
    unsafe { libc::write(fd, s.as_ptr() as *const c_void, s.len()); }
}

pub fn thread_cpu_ns(clk: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw_syscall(libc::SYS_clock_gettime, clk as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0); }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
pub fn my_cpu_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c); }
    c
}
