//! Logical threads on OS threads, one running at a time (token passing). Every switch is decided by the
//! explorer. Vector clocks record happens-before for the race detector.
use crate::choice::{choose, state, Kind};
use crate::fx::mix;
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, Ordering::*};

pub type Vc = Vec<u32>;
/// one more step in a history of synchronisation (not kept where states are told apart by value)
pub fn order(a: u64, b: u64) -> u64 {
    if s().by_value {
        0
    } else {
        mix(a, b)
    }
}
pub fn vc_join(a: &mut Vc, b: &[u32]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        if *y > *x {
            *x = *y;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Ready,
    Blocked,
    Done,
}
pub struct Thr {
    pub st: St,
    pub why: (&'static str, usize),
    pub vc: Vc,
    pub pend_acq: Vc,
    pub rel_fence: Vc,
    pub hist: u64,
    /// the latest atomic operation, if it was a load: address, value, times in a row
    pub spin: (usize, u64, u32),
    /// callee-saved registers and stack pointer when the thread last entered the runtime (states by value)
    pub ctx: [usize; 7],
    /// where its part of the stack begins (0: not started)
    pub base: usize,
    /// what a thread that has not started was given
    pub job: usize,
    sem: &'static AtomicU32,
    pub timed: bool,
    pub timed_out: bool,
    pub waiters: Vec<usize>,
    pub pool_depth: u32,
}
#[derive(Default, Clone)]
pub struct SyncObj {
    pub vc: Vc,
    pub hist: u64,
}
pub struct S {
    pub on: bool,
    /// explore which thread runs (otherwise lowest-numbered runnable thread, deterministically)
    pub explore: bool,
    /// states are told apart by the values threads have read and by what is in shared memory, not by the order of
    /// synchronisation (sound for results; data races are looked for with this off)
    pub by_value: bool,
    pub cur: usize,
    pub thr: Vec<Thr>,
    pub objs: HashMap<usize, SyncObj>,
    futex: HashMap<usize, Vec<usize>>,
    pub points: u64,
    run_len: u32,
    pub horizon: u64,
    /// the OS thread of each logical thread, the same in all executions
    idle: Vec<Option<&'static Worker>>,
    pub live: usize,
    /// invoked when nothing is runnable: may make threads runnable again
    pub quiescent: Option<fn() -> bool>,
    pub ptids: HashMap<usize, usize>,
}
struct Worker {
    sem: AtomicU32,
    job: UnsafeCell<Option<(usize, Box<dyn FnOnce() + Send>)>>,
}
unsafe impl Sync for Worker {}
struct G(UnsafeCell<Option<S>>);
unsafe impl Sync for G {}
static SCHED: G = G(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
pub fn s() -> &'static mut S {
    unsafe {
        (*SCHED.0.get()).get_or_insert_with(|| S {
            on: false,
            explore: true,
            by_value: false,
            cur: 0,
            thr: vec![],
            objs: HashMap::new(),
            futex: HashMap::new(),
            points: 0,
            run_len: 0,
            horizon: 3_000_000,
            idle: vec![],
            live: 0,
            quiescent: None,
            ptids: HashMap::new(),
        })
    }
}
thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static RT: Cell<u32> = const { Cell::new(0) };
}
/// current logical thread, if the scheduler is on and this OS thread belongs to it
#[inline]
pub fn me() -> Option<usize> {
    let t = TID.try_with(|t| t.get()).unwrap_or(usize::MAX);
    if t == usize::MAX {
        None
    } else {
        Some(t)
    }
}
#[inline]
pub fn in_rt() -> bool {
    RT.try_with(|r| r.get()).unwrap_or(1) != 0
}
pub struct RtGuard;
impl RtGuard {
    #[inline]
    pub fn new() -> Self {
        let _ = RT.try_with(|r| r.set(r.get() + 1));
        RtGuard
    }
}
impl Drop for RtGuard {
    #[inline]
    fn drop(&mut self) {
        let _ = RT.try_with(|r| r.set(r.get() - 1));
    }
}
/// scheduler active for the calling thread
#[inline]
pub fn on() -> bool {
    me().is_some()
}

fn post(sem: &AtomicU32) {
    sem.store(1, Release);
    unsafe {
        crate::interpose::sys_futex(
            sem.as_ptr() as usize,
            libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG,
            1,
        )
    };
}
fn wait(sem: &AtomicU32) {
    // short spin first: the other side usually answers quickly
    for _ in 0..200 {
        if sem.load(Acquire) == 1 {
            sem.store(0, Relaxed);
            return;
        }
        std::hint::spin_loop();
    }
    loop {
        if sem.load(Acquire) == 1 {
            sem.store(0, Relaxed);
            return;
        }
        unsafe {
            crate::interpose::sys_futex(
                sem.as_ptr() as usize,
                libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG,
                0,
            )
        };
    }
}
fn new_sem() -> &'static AtomicU32 {
    Box::leak(Box::new(AtomicU32::new(0)))
}

fn new_thr(parent: Option<usize>) -> usize {
    let sc = s();
    let t = sc.thr.len();
    let sem = SEMS.with_index(t);
    let (vc, h) = match parent {
        Some(p) => {
            let pv = sc.thr[p].vc.clone();
            sc.thr[p].vc[p] += 1;
            sc.thr[p].hist = order(sc.thr[p].hist, 0x5a ^ t as u64);
            (pv, order(sc.thr[p].hist, t as u64))
        }
        None => (vec![], 1),
    };
    let mut vc = vc;
    vc.resize(vc.len().max(t + 1), 0);
    vc[t] = 1;
    sc.thr.push(Thr {
        st: St::Ready,
        why: ("", 0),
        vc,
        pend_acq: vec![],
        rel_fence: vec![],
        hist: h,
        spin: (0, 0, 0),
        ctx: [0; 7],
        base: 0,
        job: 0,
        sem,
        timed: false,
        timed_out: false,
        waiters: vec![],
        pool_depth: 0,
    });
    sc.live += 1;
    #[cfg(feature = "tsan")]
    if t > 0 {
        crate::tsan::started();
    }
    t
}
struct Sems(UnsafeCell<Vec<&'static AtomicU32>>);
unsafe impl Sync for Sems {}
static SEMS: Sems = Sems(UnsafeCell::new(Vec::new()));
impl Sems {
    fn with_index(&self, i: usize) -> &'static AtomicU32 {
        let v = unsafe { &mut *self.0.get() };
        while v.len() <= i {
            v.push(new_sem());
        }
        v[i]
    }
}

/// Execute `f` as logical thread 0 of a fresh scheduled execution.
pub fn run<R>(explore: bool, f: impl FnOnce() -> R) -> R {
    let r;
    let marker = 0usize;
    {
        let _g = RtGuard::new();
        let sc = s();
        assert!(!sc.on, "nested scheduler");
        sc.thr.clear();
        sc.objs.clear();
        sc.futex.clear();
        sc.ptids.clear();
        sc.points = 0;
        sc.run_len = 0;
        sc.live = 0;
        sc.cur = 0;
        sc.explore = explore;
        crate::pool::reset();
        #[cfg(feature = "tsan")]
        crate::tsan::reset();
        new_thr(None);
        sc.on = true;
        TID.with(|t| t.set(0));
        sc.thr[0].base = &raw const marker as usize;
        #[cfg(feature = "tsan")]
        crate::tsan::on_stack(0);
    }
    scrub_deep();
    let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    {
        let _g = RtGuard::new();
        let sc = s();
        // detached logical threads run to their end
        for t in 1..sc.thr.len() {
            wait_done(t);
        }
        sc.on = false;
        TID.with(|t| t.set(usize::MAX));
        r = g;
    }
    match r {
        Ok(v) => v,
        Err(p) => std::panic::resume_unwind(p),
    }
}

fn fingerprint() -> u64 {
    let sc = s();
    #[cfg(feature = "tsan")]
    if sc.by_value {
        let mut h = mix(0x78, sc.cur as u64);
        for (i, t) in sc.thr.iter().enumerate() {
            h = h.wrapping_add(mix(mix(mix(i as u64, t.waiters.len() as u64), t.st as u64), t.timed_out as u64));
        }
        for (a, q) in &sc.futex {
            if !q.is_empty() {
                let a = crate::tsan::place(*a);
                h = h.wrapping_add(q.iter().fold(mix(0xf07e, a), |h, &t| mix(h, t as u64)));
            }
        }
        return h.wrapping_add(crate::pool::hash()).wrapping_add(crate::tsan::memory());
    }
    let mut h = mix(0x77, sc.cur as u64);
    for (i, t) in sc.thr.iter().enumerate() {
        h = h.wrapping_add(mix(mix(i as u64, t.hist), t.st as u64));
    }
    h
}

fn enabled() -> Vec<usize> {
    let sc = s();
    let mut v = Vec::with_capacity(4);
    if sc.thr[sc.cur].st == St::Ready {
        v.push(sc.cur);
    }
    for (i, t) in sc.thr.iter().enumerate() {
        if i != sc.cur && t.st == St::Ready {
            v.push(i);
        }
    }
    v
}

/// Decide who runs next. Returns the thread chosen.
fn pick(me_ready: bool, forced_away: bool) -> usize {
    loop {
        let mut en = enabled();
        if forced_away && en.len() > 1 {
            en.remove(0);
        }
        if en.is_empty() {
            let sc = s();
            if let Some(q) = sc.quiescent {
                if q() {
                    continue;
                }
            }
            // fire a timed wait, if any
            if let Some(t) =
                (0..sc.thr.len()).find(|&t| sc.thr[t].st == St::Blocked && sc.thr[t].timed)
            {
                sc.thr[t].timed_out = true;
                sc.thr[t].st = St::Ready;
                for w in sc.futex.values_mut() {
                    w.retain(|&x| x != t);
                }
                continue;
            }
            let who: Vec<String> = sc
                .thr
                .iter()
                .enumerate()
                .filter(|(_, t)| t.st == St::Blocked)
                .map(|(i, t)| format!("thread {i} waits for {} {}", t.why.0, t.why.1))
                .collect();
            crate::drv::fatal_violation("deadlock", &format!("deadlock: {}", who.join("; ")));
        }
        let sc = s();
        if en.len() == 1 || !sc.explore {
            return en[0];
        }
        state(fingerprint);
        let k = choose(
            if me_ready && !forced_away {
                Kind::Preempt
            } else {
                Kind::Switch
            },
            en.len(),
        );
        return en[k];
    }
}

fn hand_to(next: usize, my: usize) {
    let sc = s();
    if next == my {
        return;
    }
    sc.cur = next;
    sc.run_len = 0;
    let sem = sc.thr[my].sem;
    post(sc.thr[next].sem);
    wait(sem);
}

/// registers that survive calls, and the stack pointer
#[inline(always)]
fn here(m: usize) {
    if s().by_value {
        let c = &mut s().thr[m].ctx;
        unsafe {
            std::arch::asm!(
                "mov [{c}], rbx", "mov [{c} + 8], rbp", "mov [{c} + 16], r12", "mov [{c} + 24], r13",
                "mov [{c} + 32], r14", "mov [{c} + 40], r15", "mov [{c} + 48], rsp",
                c = in(reg) c.as_mut_ptr(), options(nostack, preserves_flags)
            );
        }
    }
}
/// what the runtime leaves behind below the stack pointer is no part of the state
#[inline(never)]
fn scrub() {
    let mut a = std::mem::MaybeUninit::<[u8; 6000]>::uninit();
    unsafe { std::ptr::write_bytes(a.as_mut_ptr() as *mut u8, 0, 6000) };
    std::hint::black_box(&mut a);
}

/// likewise for what earlier executions left behind
#[inline(never)]
fn scrub_deep() {
    if s().by_value {
        let mut a = std::mem::MaybeUninit::<[u8; 1 << 17]>::uninit();
        unsafe { std::ptr::write_bytes(a.as_mut_ptr() as *mut u8, 0, 1 << 17) };
        std::hint::black_box(&mut a);
    }
}

/// Scheduling point of a runnable thread.
#[inline(never)]
pub fn point() {
    let Some(m) = me() else { return };
    let sc = s();
    if sc.live < 2 {
        return;
    }
    here(m);
    point_at(m);
    if sc.by_value {
        scrub();
    }
}
#[inline(never)]
fn point_at(m: usize) {
    let sc = s();
    let _g = RtGuard::new();
    sc.points += 1;
    sc.run_len += 1;
    sc.thr[m].hist = order(sc.thr[m].hist, 0x9017);
    if sc.points > sc.horizon {
        crate::drv::fatal_violation(
            "no-termination",
            "execution exceeds the scheduling horizon under a fair schedule",
        );
    }
    let forced = sc.run_len > 20_000;
    let n = pick(true, forced);
    hand_to(n, m);
}
/// Voluntary yield: prefer another runnable thread.
#[inline(never)]
pub fn yield_now() {
    let Some(m) = me() else { return };
    here(m);
    yield_at(m);
    if s().by_value {
        scrub();
    }
}
#[inline(never)]
fn yield_at(m: usize) {
    let _g = RtGuard::new();
    let sc = s();
    sc.points += 1;
    sc.thr[m].hist = order(sc.thr[m].hist, 0x91e1);
    if sc.points > sc.horizon {
        crate::drv::fatal_violation(
            "no-termination",
            "execution exceeds the scheduling horizon under a fair schedule",
        );
    }
    let n = pick(true, true);
    hand_to(n, m);
}
/// Block the current thread until `unblock` is called on it.
#[inline(never)]
pub fn block(why: &'static str, what: usize) {
    let m = me().expect("block outside the scheduler");
    here(m);
    block_at(m, why, what);
    if s().by_value {
        scrub();
    }
}
#[inline(never)]
fn block_at(m: usize, why: &'static str, what: usize) {
    let _g = RtGuard::new();
    let sc = s();
    sc.thr[m].st = St::Blocked;
    sc.thr[m].hist = order(sc.thr[m].hist, 0xb10c);
    sc.thr[m].why = (why, what);
    let n = pick(false, false);
    if n != m {
        hand_to(n, m);
    }
}
pub fn unblock(t: usize) {
    let sc = s();
    if sc.thr[t].st == St::Blocked {
        sc.thr[t].st = St::Ready;
    }
}
/// mix a value into the current thread's history (choices that influence its behaviour)
pub fn note(v: u64) {
    if let Some(m) = me() {
        let t = &mut s().thr[m];
        t.hist = order(t.hist, v ^ 0xc0ffee);
    }
}

pub fn spawn(f: Box<dyn FnOnce() + Send>) -> usize {
    let m = me().expect("spawn outside the scheduler");
    let t;
    {
        let _g = RtGuard::new();
        let sc = s();
        t = new_thr(Some(m));
        let w: &'static Worker = match sc.idle.get_mut(t).and_then(|w| w.take()) {
            Some(w) => w,
            None => {
                let w: &'static Worker = Box::leak(Box::new(Worker {
                    sem: AtomicU32::new(0),
                    job: UnsafeCell::new(None),
                }));
                // created while this thread does not count as logical, so that the thread is not captured
                TID.with(|x| x.set(usize::MAX));
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || worker(w))
                    .expect("worker thread");
                TID.with(|x| x.set(m));
                w
            }
        };
        sc.thr[t].job = &*f as *const _ as *const () as usize;
        unsafe { *w.job.get() = Some((t, f)) };
        post(&w.sem);
    }
    point();
    t
}

fn worker(w: &'static Worker) {
    loop {
        wait(&w.sem);
        let (t, f) = unsafe { (*w.job.get()).take().expect("job") };
        enter(t, &raw const t as usize);
        #[cfg(feature = "tsan")]
        crate::tsan::belongs(w as *const _ as usize, std::mem::size_of::<Worker>(), t);
        scrub_deep();
        f();
        leave(t, Some(w));
    }
}
/// first token wait of a logical thread on its OS thread
pub fn enter(t: usize, base: usize) {
    let sem = SEMS.with_index_ro(t);
    wait(sem);
    TID.with(|x| x.set(t));
    s().thr[t].base = base;
    #[cfg(feature = "tsan")]
    {
        let _g = RtGuard::new();
        crate::tsan::on_stack(t);
    }
}
impl Sems {
    fn with_index_ro(&self, i: usize) -> &'static AtomicU32 {
        unsafe { (&*self.0.get())[i] }
    }
}
fn leave(t: usize, w: Option<&'static Worker>) {
    let _g = RtGuard::new();
    #[cfg(feature = "tsan")]
    crate::tsan::clear_my_stack();
    let sc = s();
    sc.thr[t].st = St::Done;
    sc.live -= 1;
    let ws = std::mem::take(&mut sc.thr[t].waiters);
    for x in ws {
        unblock(x);
    }
    if let Some(w) = w {
        if sc.idle.len() <= t {
            sc.idle.resize(t + 1, None);
        }
        sc.idle[t] = Some(w);
    }
    TID.with(|x| x.set(usize::MAX));
    let n = pick(false, false);
    let sc = s();
    sc.cur = n;
    sc.run_len = 0;
    post(sc.thr[n].sem);
}
/// register a logical thread whose OS thread is created by the code under test
pub fn adopt() -> usize {
    new_thr(me())
}
pub fn leave_adopted(t: usize) {
    leave(t, None)
}

pub fn wait_done(t: usize) {
    let m = me().expect("wait outside the scheduler");
    let _g = RtGuard::new();
    let sc = s();
    while sc.thr[t].st != St::Done {
        sc.thr[t].waiters.push(m);
        block("the end of thread", t);
    }
    let v = sc.thr[t].vc.clone();
    let h = sc.thr[t].hist;
    vc_join(&mut sc.thr[m].vc, &v);
    sc.thr[m].vc[m] += 1;
    sc.thr[m].hist = order(sc.thr[m].hist, h);
    #[cfg(feature = "tsan")]
    crate::tsan::joined();
}

// ---- synchronisation objects (atomics, futexes, channels) ----
pub fn acquire(addr: usize) {
    if s().by_value {
        return;
    }
    if let Some(m) = me() {
        let sc = s();
        if let Some(o) = sc.objs.get(&addr) {
            vc_join(&mut sc.thr[m].vc, &o.vc);
            sc.thr[m].hist = order(sc.thr[m].hist, o.hist);
        }
    }
}
pub fn release(addr: usize) {
    if s().by_value {
        return;
    }
    if let Some(m) = me() {
        let sc = s();
        let o = sc.objs.entry(addr).or_default();
        vc_join(&mut o.vc, &sc.thr[m].vc);
        o.hist = order(o.hist, sc.thr[m].hist);
        let h = o.hist;
        sc.thr[m].hist = order(sc.thr[m].hist, h);
        sc.thr[m].vc[m] += 1;
    }
}
pub fn hb(from: usize, to: usize) {
    if s().by_value {
        return;
    }
    let sc = s();
    let v = sc.thr[from].vc.clone();
    let h = sc.thr[from].hist;
    vc_join(&mut sc.thr[to].vc, &v);
    sc.thr[to].hist = order(sc.thr[to].hist, h);
    sc.thr[from].vc[from] += 1;
}

/// futex wait by code under test; returns errno or 0
pub fn futex_wait(addr: usize, expect: u32, timed: bool) -> i32 {
    let m = me().unwrap();
    let _g = RtGuard::new();
    let v = unsafe { &*(addr as *const AtomicU32) }.load(SeqCst);
    note((v != expect) as u64);
    if v != expect {
        acquire(addr);
        return libc::EAGAIN;
    }
    let sc = s();
    sc.futex.entry(addr).or_default().push(m);
    sc.thr[m].timed = timed;
    sc.thr[m].timed_out = false;
    block("a futex (lock or condition) of thread", m);
    acquire(addr);
    let sc = s();
    sc.thr[m].timed = false;
    if std::mem::take(&mut sc.thr[m].timed_out) {
        note(0x71);
        return libc::ETIMEDOUT;
    }
    0
}
pub fn futex_wake(addr: usize, n: usize) -> usize {
    let m = me().unwrap();
    let _g = RtGuard::new();
    let sc = s();
    release(addr);
    let mut k = 0;
    while k < n {
        let Some(w) = sc.futex.get_mut(&addr) else {
            break;
        };
        if w.is_empty() {
            break;
        }
        let i = if w.len() > 1 && n == 1 && sc.explore {
            choose(Kind::Switch, w.len())
        } else {
            0
        };
        let t = w.remove(i);
        hb(m, t);
        unblock(t);
        k += 1;
    }
    k
}
