//! libc interposition: futexes of the code under test go to the scheduler; the number of available CPUs and
//! thread creation are controlled.
use crate::sched;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

#[inline]
unsafe fn sys6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn sys_futex(addr: usize, op: i32, val: u32) -> isize {
    sys6(
        libc::SYS_futex as usize,
        addr,
        op as usize,
        val as usize,
        0,
        0,
        0,
    )
}
unsafe fn ret(r: isize) -> libc::c_long {
    if r < 0 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r as libc::c_long
    }
}

/// # Safety
/// libc's syscall(2)
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: libc::c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> libc::c_long {
    if n == libc::SYS_futex && sched::on() && !sched::in_rt() {
        let op = (b as i32) & 0x7f;
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let er = sched::futex_wait(a, c as u32, d != 0);
                return if er == 0 { 0 } else { ret(-(er as isize)) };
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                return sched::futex_wake(a, c.min(i32::MAX as usize)) as libc::c_long;
            }
            _ => {}
        }
    }
    ret(sys6(n as usize, a, b, c, d, e, f))
}

static CPUS: AtomicUsize = AtomicUsize::new(0);
/// what `available_parallelism` shall answer (0: the truth)
pub fn set_cpus(n: usize) {
    CPUS.store(n, SeqCst);
}
/// # Safety
/// libc's sched_getaffinity(2)
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(
    pid: libc::pid_t,
    size: usize,
    set: *mut libc::cpu_set_t,
) -> libc::c_int {
    let n = CPUS.load(SeqCst);
    let r = sys6(
        libc::SYS_sched_getaffinity as usize,
        pid as usize,
        size,
        set as usize,
        0,
        0,
        0,
    );
    if r < 0 {
        return ret(r) as libc::c_int;
    }
    if n > 0 {
        std::ptr::write_bytes(set as *mut u8, 0, size);
        for i in 0..n {
            *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
    } else if (r as usize) < size {
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, size - r as usize);
    }
    0
}
/// # Safety
/// libc's sched_yield(2)
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    if sched::on() && !sched::in_rt() {
        sched::yield_now();
        return 0;
    }
    sys6(libc::SYS_sched_yield as usize, 0, 0, 0, 0, 0, 0) as libc::c_int
}

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type PtCreate = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    Start,
    *mut libc::c_void,
) -> libc::c_int;
type PtJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;
unsafe fn next(name: &'static [u8]) -> usize {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize
}
struct Tramp {
    start: Start,
    arg: *mut libc::c_void,
    tid: usize,
}
extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    let (start, arg, tid) = (t.start, t.arg, t.tid);
    drop(t);
    sched::enter(tid, &raw const tid as usize);
    let r = start(arg);
    sched::leave_adopted(tid);
    r
}
/// # Safety
/// libc's pthread_create(3)
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: Start,
    arg: *mut libc::c_void,
) -> libc::c_int {
    let real: PtCreate = std::mem::transmute(next(b"pthread_create\0"));
    if sched::on() && !sched::in_rt() {
        let r;
        {
            let _g = sched::RtGuard::new();
            let tid = sched::adopt();
            sched::s().thr[tid].job = arg as usize;
            let b = Box::into_raw(Box::new(Tramp { start, arg, tid }));
            r = real(t, attr, tramp, b as *mut _);
            if r != 0 {
                crate::choice::machinery_error("pthread_create failed");
            }
            sched::s().ptids.insert(*t as usize, tid);
        }
        sched::point();
        return r;
    }
    real(t, attr, start, arg)
}
/// # Safety
/// libc's pthread_join(3)
#[no_mangle]
pub unsafe extern "C" fn pthread_join(
    t: libc::pthread_t,
    out: *mut *mut libc::c_void,
) -> libc::c_int {
    let real: PtJoin = std::mem::transmute(next(b"pthread_join\0"));
    if sched::on() && !sched::in_rt() {
        let tid = sched::s().ptids.get(&(t as usize)).copied();
        if let Some(tid) = tid {
            sched::wait_done(tid);
        }
    }
    real(t, out)
}

/// output of the code under test: (coroutine, bytes) in the order it was written
struct Log(std::cell::UnsafeCell<Option<Vec<(usize, Vec<u8>)>>>);
unsafe impl Sync for Log {}
static LOG: Log = Log(std::cell::UnsafeCell::new(None));
static ALL: AtomicBool = AtomicBool::new(false);
/// from now on what a coroutine writes to its standard output is recorded
pub fn capture() {
    ALL.store(false, SeqCst);
    unsafe { *LOG.0.get() = Some(vec![]) }
}
/// likewise, whoever writes it
pub fn capture_all() {
    capture();
    ALL.store(true, SeqCst);
}
pub fn captured() -> Vec<(usize, Vec<u8>)> {
    unsafe { (*LOG.0.get()).take().unwrap_or_default() }
}
/// # Safety
/// libc's write(2)
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if fd == 1 {
        let who = crate::fiber::current().or(ALL.load(SeqCst).then_some(0));
        if let (Some(r), Some(l)) = (who, &mut *LOG.0.get()) {
            l.push((r, std::slice::from_raw_parts(buf as *const u8, n).to_vec()));
            return n as libc::ssize_t;
        }
    }
    ret(sys6(libc::SYS_write as usize, fd as usize, buf as usize, n, 0, 0, 0)) as libc::ssize_t
}
