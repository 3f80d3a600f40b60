//! libc symbols redefined in our binary.  They shadow glibc's for the Rust
//! standard library and every crate linked here; outside a simulated run they
//! behave exactly like the originals.
use crate::region::count;
use crate::sched::{self, ACTIVE};
use core::cell::Cell;
use libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec};

#[inline(always)]
pub unsafe fn raw_syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    core::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn set_errno(r: isize) -> c_long {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r as c_long
    }
}

unsafe fn ts_ns(p: *const timespec) -> u64 {
    ((*p).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*p).tv_nsec as u64)
}

const EPOCH: u64 = 1_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if ACTIVE {
        if n == libc::SYS_futex {
            let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let bits = if op == libc::FUTEX_WAIT { u32::MAX } else { f as u32 };
                    let dl = if d == 0 {
                        u64::MAX
                    } else {
                        let t = ts_ns(d as *const timespec);
                        if op == libc::FUTEX_WAIT {
                            sched::now().saturating_add(t)
                        } else {
                            t.saturating_sub(EPOCH)
                        }
                    };
                    return set_errno(sched::futex_wait(a as *const u32, c as u32, bits, dl));
                }
                libc::FUTEX_WAKE => return set_errno(sched::futex_wake(a as *const u32, c as u32, u32::MAX)),
                libc::FUTEX_WAKE_BITSET => return set_errno(sched::futex_wake(a as *const u32, c as u32, f as u32)),
                _ => {
                    crate::run::harness("unhandled futex operation");
                }
            }
        }
        if n == libc::SYS_getrandom {
            return fill_random(a as *mut u8, b) as c_long;
        }
        if n == libc::SYS_sched_yield {
            sched::yield_now();
            return 0;
        }
    }
    set_errno(raw_syscall(n, a, b, c, d, e, f))
}

static mut OSRNG: u64 = 0x5eed;
/// Requests made to the operating system's randomness since the run began.
pub static mut OS_RANDOM_CALLS: u64 = 0;

/// Coming requests that return zeros, are interrupted, or return too little.
static mut OS_FAULTS: (u64, u64, u64) = (0, 0, 0);
pub fn os_random_faults(zeros: u64, interrupts: u64, short: u64) {
    unsafe { OS_FAULTS = (zeros, interrupts, short) }
}

/// Coming requests that fail for good.
static mut OS_FAIL: u64 = 0;
pub fn os_random_fail(n: u64) {
    unsafe { OS_FAIL = n }
}

/// What coming requests return, before anything else.
static mut OS_SCRIPT: Vec<u8> = Vec::new();
pub fn os_random_script(bytes: Vec<u8>) {
    unsafe { OS_SCRIPT = bytes }
}

unsafe fn fill_random(p: *mut u8, n: usize) -> usize {
    OS_RANDOM_CALLS += 1;
    count("seam:os-randomness-requests");
    if OS_FAIL > 0 {
        OS_FAIL -= 1;
        count("fault:os-randomness-failed");
        *libc::__errno_location() = libc::EIO;
        return usize::MAX;
    }
    if OS_FAULTS.1 > 0 {
        OS_FAULTS.1 -= 1;
        count("fault:os-randomness-interrupted");
        *libc::__errno_location() = libc::EINTR;
        return usize::MAX;
    }
    let mut n = n;
    if OS_FAULTS.2 > 0 && n > 1 {
        OS_FAULTS.2 -= 1;
        count("fault:os-randomness-short");
        n = 1 + n / 2;
    }
    if OS_FAULTS.0 > 0 {
        OS_FAULTS.0 -= 1;
        count("fault:os-randomness-zeros");
        std::ptr::write_bytes(p, 0, n);
        return n;
    }
    let scripted = n.min((*std::ptr::addr_of!(OS_SCRIPT)).len());
    if scripted > 0 {
        count("fault:os-randomness-known-to-the-adversary");
        let script = &mut *std::ptr::addr_of_mut!(OS_SCRIPT);
        for (i, b) in script.drain(..scripted).enumerate() {
            *p.add(i) = b;
        }
    }
    for i in scripted..n {
        *p.add(i) = crate::rng::splitmix(&mut OSRNG) as u8;
    }
    n
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if ACTIVE {
        return fill_random(p as *mut u8, n) as ssize_t;
    }
    set_errno(raw_syscall(libc::SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if ACTIVE {
        sched::yield_now();
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if ACTIVE {
        sched::sleep(ts_ns(req));
        return 0;
    }
    set_errno(raw_syscall(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if ACTIVE {
        let t = ts_ns(req);
        if flags & libc::TIMER_ABSTIME != 0 {
            sched::sleep(t.saturating_sub(EPOCH).saturating_sub(sched::now()));
        } else {
            sched::sleep(t);
        }
        return 0;
    }
    -raw_syscall(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if ACTIVE {
        sched::advance(20);
        let t = EPOCH + sched::now();
        (*ts).tv_sec = (t / 1_000_000_000) as _;
        (*ts).tv_nsec = (t % 1_000_000_000) as _;
        return 0;
    }
    set_errno(raw_syscall(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type RealCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
type RealJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;

static mut REAL_CREATE: Option<RealCreate> = None;
static mut REAL_JOIN: Option<RealJoin> = None;
static mut KEY: libc::pthread_key_t = 0;

pub unsafe fn init() {
    let p = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _);
    assert!(!p.is_null());
    REAL_CREATE = Some(core::mem::transmute(p));
    let p = libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const _);
    assert!(!p.is_null());
    REAL_JOIN = Some(core::mem::transmute(p));
    assert!(libc::pthread_key_create(&mut KEY, Some(at_exit)) == 0);
}

unsafe extern "C" fn at_exit(_: *mut c_void) {
    if ACTIVE {
        sched::finished();
    }
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}

struct Tramp {
    f: Start,
    arg: *mut c_void,
    me: usize,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let t = Box::from_raw(p as *mut Tramp);
        let (f, arg, me) = (t.f, t.arg, t.me);
        sched::wait_turn(me);
        // From here on this thread holds the baton.
        drop(t);
        ME.with(|m| m.set(me));
        libc::pthread_setspecific(KEY, 1 as *const c_void);
        f(arg)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    if !ACTIVE {
        if REAL_CREATE.is_none() {
            init();
        }
        return REAL_CREATE.unwrap()(t, attr, f, arg);
    }
    let me = match sched::new_thread() {
        Some(i) => i,
        None => return libc::EAGAIN,
    };
    let b = Box::into_raw(Box::new(Tramp { f, arg, me }));
    let rc = REAL_CREATE.unwrap()(t, attr, trampoline, b as *mut c_void);
    if rc != 0 {
        crate::run::harness("pthread_create failed");
    }
    sched::T[me].pthread = *t as u64;
    sched::started(me);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    if ACTIVE {
        for i in 1..sched::N {
            if sched::T[i].pthread == t as u64 && sched::T[i].st != sched::St::Free {
                sched::join(i);
                sched::T[i].pthread = 0;
                break;
            }
        }
    }
    if REAL_JOIN.is_none() {
        init();
    }
    REAL_JOIN.unwrap()(t, ret)
}
