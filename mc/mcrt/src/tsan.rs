//! Our own runtime for code compiled with ThreadSanitizer instrumentation: atomic operations are scheduling
//! points and synchronisation, plain accesses are checked for happens-before order (vector clocks).
use crate::sched::{self, s, vc_join, RtGuard, Vc};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::ffi::c_void;

#[derive(Clone, Copy)]
struct Entry {
    tid: u16,
    mask: u8,
    write: bool,
    atomic: bool,
    clk: u32,
}
type Granule = Vec<Entry>;
const PAGE: usize = 4096;
type Page = Vec<Granule>;

struct Block {
    len: usize,
    /// number given by the latest traversal, and which that was
    epoch: u64,
    id: u32,
}
struct T {
    /// by value: words written outside the heap and the writer's stack, in any execution
    written: std::collections::BTreeSet<usize>,
    /// by value: memory allocated in this execution: start -> block
    heap: std::collections::BTreeMap<usize, Block>,
    epoch: u64,
    stacks: Vec<(usize, usize, usize)>,
    pages: HashMap<usize, Page, crate::fx::Build>,
    race: Option<String>,
    accesses: u64,
}
struct G(UnsafeCell<Option<T>>);
unsafe impl Sync for G {}
static STATE: G = G(UnsafeCell::new(None));
/// at least one logical thread besides the first was started and not yet joined
static mut TRACK: bool = false;

#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut T {
    unsafe {
        (*STATE.0.get()).get_or_insert_with(|| T {
            written: Default::default(),
            heap: Default::default(),
            epoch: 0,
            stacks: vec![],
            pages: HashMap::default(),
            race: None,
            accesses: 0,
        })
    }
}
#[inline(always)]
fn tracking() -> bool {
    unsafe { TRACK }
}

pub fn reset() {
    let t = st();
    t.pages.clear();
    if s().by_value {
        let end = t.heap.iter().next_back().map(|(b, k)| b + k.len);
        locked(|x| x[APP].next = end.unwrap_or(0).max(x[APP].lo));
    }
    t.stacks.clear();
    t.race = None;
    t.accesses = 0;
    unsafe { TRACK = false };
}
/// a logical thread was started
pub fn started() {
    unsafe {
        BY_VALUE = s().by_value;
        HEAP = (*ARENAS.0.get())[APP].lo;
        TRACK = true
    };
}
/// the current thread waited for another one
pub fn joined() {
    if !tracking() {
        return;
    }
    let Some(m) = sched::me() else { return };
    let sc = s();
    let mine = &sc.thr[m].vc;
    let all = sc.thr.iter().enumerate().all(|(i, t)| {
        i == m || (t.st == sched::St::Done && sc.by_value) || (t.st == sched::St::Done && mine.get(i).copied().unwrap_or(0) >= t.vc[i])
    });
    if all {
        st().pages.clear();
        unsafe { TRACK = false };
    }
}
/// first data race of the execution
pub fn race() -> Option<String> {
    st().race.clone()
}
/// plain accesses looked at in this execution
pub fn accesses() -> u64 {
    st().accesses
}

/// name of an address that does not depend on where stacks happen to lie
pub fn place(a: usize) -> u64 {
    use crate::fx::mix;
    for &(lo, hi, tid) in &st().stacks {
        if lo <= a && a < hi {
            return mix(mix(0x57ac, tid as u64), (hi - a) as u64);
        }
    }
    a as u64
}
/// what is in memory and registers, up to renaming of addresses: the stacks of all logical threads, what was
/// written outside heap and stacks, and all heap memory reachable from there
pub fn memory() -> u64 {
    use crate::fx::mix;
    let t = st();
    t.epoch += 1;
    let mut w = Walk { queue: vec![], next: 0 };
    let mut h = 0x3e3;
    for th in &s().thr {
        if th.st == sched::St::Done {
            continue;
        }
        if th.base == 0 {
            h = mix(h, w.word(th.job));
            continue;
        }
        for r in &th.ctx[..6] {
            h = mix(h, w.word(*r));
        }
        h = mix(mix(h, w.word(th.spin.0)), th.spin.1);
        let sp = th.ctx[6];
        h = mix(h, (th.base - sp) as u64);
        for a in (sp..th.base).step_by(8) {
            h = mix(h, w.word(unsafe { std::ptr::read_volatile(a as *const usize) }));
        }
    }
    let mut rest: Vec<(u64, usize)> = t.written.iter().map(|&g| (place(g * 8), g)).collect();
    rest.sort_unstable();
    for (p, g) in rest {
        h = mix(mix(h, p), w.word(unsafe { std::ptr::read_volatile((g * 8) as *const usize) }));
    }
    while let Some((b, n)) = w.queue.pop() {
        h = mix(h, n as u64);
        for a in (b..b + n / 8 * 8).step_by(8) {
            h = mix(h, w.word(unsafe { std::ptr::read_volatile(a as *const usize) }));
        }
        for a in b + n / 8 * 8..b + n {
            h = mix(h, unsafe { std::ptr::read_volatile(a as *const u8) } as u64);
        }
    }
    h
}
struct Walk {
    queue: Vec<(usize, usize)>,
    next: u32,
}
impl Walk {
    fn word(&mut self, v: usize) -> u64 {
        let t = st();
        if !(1 << 20..1 << 47).contains(&v) {
            return v as u64;
        }
        match arena_of(v) {
            Some(MACHINERY) => return 0x3ac4,
            None => return place(v),
            _ => {}
        }
        {
            if let Some((&b, k)) = t.heap.range_mut(..=v).next_back() {
                // one past the end is a pointer into the block, too
                if v <= b + k.len {
                    if k.epoch != t.epoch {
                        k.epoch = t.epoch;
                        k.id = self.next;
                        self.next += 1;
                        self.queue.push((b, k.len));
                    }
                    return crate::fx::mix(crate::fx::mix(0x4ea9, k.id as u64), (v - b) as u64);
                }
            }
        }
        // freed
        0xdead
    }
}
/// the current thread runs on the stack `lo..hi`
pub fn on_stack(m: usize) {
    if !s().by_value {
        return;
    }
    let (lo, hi) = my_stack();
    let t = st();
    t.stacks.retain(|x| x.2 != m && x.0 != lo);
    t.stacks.push((lo, hi, m));
}
/// this memory of the machinery belongs to a logical thread
pub fn belongs(a: usize, n: usize, m: usize) {
    if s().by_value {
        let t = st();
        t.stacks.retain(|x| x.0 != a);
        t.stacks.push((a, a + n, m));
    }
}
static mut BY_VALUE: bool = false;
static mut HEAP: usize = usize::MAX;
fn by_value(addr: usize, n: usize, write: bool) {
    if !write {
        return;
    }
    let (lo, hi) = my_stack();
    if lo <= addr && addr < hi && addr < s().thr[s().cur].base {
        return;
    }
    let _g = RtGuard::new();
    let t = st();
    if arena_of(addr).is_some() {
        return;
    }
    for g in addr / 8..=(addr + n - 1) / 8 {
        // another thread's part of its stack
        if t.stacks.iter().any(|&(lo, hi, tid)| lo <= g * 8 && g * 8 < hi && g * 8 < s().thr[tid].base) {
            continue;
        }
        t.written.insert(g);
    }
}

fn forget(lo: usize, hi: usize) {
    let t = st();
    if t.pages.is_empty() || lo >= hi {
        return;
    }
    if (hi - lo) / PAGE > t.pages.len() {
        // more pages than there are: look at those that exist
        let keys: Vec<usize> = t
            .pages
            .keys()
            .copied()
            .filter(|&k| k * PAGE < hi && (k + 1) * PAGE > lo)
            .collect();
        for k in keys {
            forget_in_page(k, lo.max(k * PAGE), hi.min((k + 1) * PAGE));
        }
        return;
    }
    let mut a = lo;
    while a < hi {
        let k = a / PAGE;
        let e = hi.min((k + 1) * PAGE);
        forget_in_page(k, a, e);
        a = e;
    }
}
fn forget_in_page(k: usize, lo: usize, hi: usize) {
    let t = st();
    if lo == k * PAGE && hi == (k + 1) * PAGE {
        t.pages.remove(&k);
        return;
    }
    if let Some(p) = t.pages.get_mut(&k) {
        for g in lo / 8..=(hi - 1) / 8 {
            let base = g * 8;
            let from = lo.max(base) - base;
            let to = hi.min(base + 8) - base;
            let m = mask(from, to);
            let v = &mut p[g % (PAGE / 8)];
            for e in v.iter_mut() {
                e.mask &= !m;
            }
            v.retain(|e| e.mask != 0);
        }
    }
}
#[inline]
fn mask(from: usize, to: usize) -> u8 {
    (((1u16 << to) - 1) & !((1u16 << from) - 1)) as u8
}

/// The logical thread ends: its OS thread (stack and thread-local storage) may serve another one.
pub fn clear_my_stack() {
    if !tracking() {
        return;
    }
    let (lo, hi) = my_stack();
    forget(lo, hi);
}
thread_local!(static MINE: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) });
fn my_stack() -> (usize, usize) {
    let r = MINE.with(|m| m.get());
    if r.1 != 0 {
        return r;
    }
    let r = find_my_stack();
    MINE.with(|m| m.set(r));
    r
}
fn find_my_stack() -> (usize, usize) {
    unsafe {
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        let tp = libc::pthread_self();
        if libc::pthread_getattr_np(tp, &mut at) != 0 {
            return (0, 0);
        }
        let mut lo: *mut c_void = std::ptr::null_mut();
        let mut n = 0;
        libc::pthread_attr_getstack(&at, &mut lo, &mut n);
        libc::pthread_attr_destroy(&mut at);
        // thread-local storage lies at the upper end
        let top = lo as usize + n;
        let tp = tp as usize;
        (lo as usize, if tp >= top && tp < top + (1 << 20) { tp + PAGE } else { top })
    }
}

fn describe(e: &Entry, write: bool, atomic: bool, n: usize) -> String {
    let word = |w, a| match (w, a) {
        (true, false) => "writes",
        (false, false) => "reads",
        (true, true) => "atomically writes",
        (false, true) => "atomically reads",
    };
    format!(
        "data race: a thread {} {n} bytes another thread {} without any order between them; at {}",
        word(write, atomic),
        word(e.write, e.atomic),
        place_in_code()
    )
}
fn place_in_code() -> String {
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let mut at = vec![];
    let mut name = "";
    for l in bt.lines() {
        let l = l.trim();
        if let Some(p) = l.strip_prefix("at ") {
            if p.contains("/repo/") || name.starts_with("walky") || name.starts_with("<walky") {
                at.push(format!("{name} ({p})"));
            }
        } else {
            name = l.split_once(": ").map(|x| x.1).unwrap_or(l);
        }
    }
    at.truncate(3);
    at.join(" < ")
}

fn access_slow(addr: usize, n: usize, write: bool, atomic: bool) {
    let Some(m) = sched::me() else { return };
    if sched::in_rt() || n == 0 {
        return;
    }
    if s().by_value {
        return by_value(addr, n, write);
    }
    let _g = RtGuard::new();
    let t = st();
    if t.race.is_some() {
        return;
    }
    t.accesses += 1;
    let vc: &Vc = &s().thr[m].vc;
    let clk = vc[m];
    let end = addr + n;
    let mut a = addr;
    while a < end {
        let g = a / 8;
        let e = end.min((g + 1) * 8);
        let mk = mask(a - g * 8, e - g * 8);
        let p = t.pages.entry(g * 8 / PAGE).or_insert_with(|| vec![Vec::new(); PAGE / 8]);
        let v = &mut p[g % (PAGE / 8)];
        for x in v.iter() {
            if x.mask & mk != 0
                && (x.write || write)
                && !(x.atomic && atomic)
                && x.tid as usize != m
                && x.clk > vc.get(x.tid as usize).copied().unwrap_or(0)
            {
                t.race = Some(describe(x, write, atomic, n));
                return;
            }
        }
        let mut have = false;
        for x in v.iter_mut() {
            if x.tid as usize == m && x.mask == mk && x.write == write && x.atomic == atomic {
                x.clk = clk;
                have = true;
            }
        }
        if !have {
            // accesses ordered before a write need not be remembered beside it
            if write && !atomic {
                v.retain(|x| x.mask & !mk != 0);
            }
            v.push(Entry { tid: m as u16, mask: mk, write, atomic, clk });
        }
        a = e;
    }
}
#[inline(always)]
fn plain(addr: usize, n: usize, write: bool) {
    watch(addr, n, write);
    if tracking() {
        // by value only writes outside the heap matter
        if unsafe { BY_VALUE } && (!write || addr.wrapping_sub(unsafe { HEAP }) < SPAN) {
            return;
        }
        access_slow(addr, n, write, false);
    }
}

macro_rules! plain_fns {
    ($($name:ident $n:expr, $w:expr;)*) => {$(
        /// # Safety
        /// called by instrumented code
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize) {
            plain(a, $n, $w)
        }
    )*};
}
plain_fns! {
    __tsan_read1 1, false; __tsan_read2 2, false; __tsan_read4 4, false; __tsan_read8 8, false; __tsan_read16 16, false;
    __tsan_write1 1, true; __tsan_write2 2, true; __tsan_write4 4, true; __tsan_write8 8, true; __tsan_write16 16, true;
    __tsan_unaligned_read2 2, false; __tsan_unaligned_read4 4, false; __tsan_unaligned_read8 8, false; __tsan_unaligned_read16 16, false;
    __tsan_unaligned_write2 2, true; __tsan_unaligned_write4 4, true; __tsan_unaligned_write8 8, true; __tsan_unaligned_write16 16, true;
    __tsan_read_write1 1, true; __tsan_read_write2 2, true; __tsan_read_write4 4, true; __tsan_read_write8 8, true; __tsan_read_write16 16, true;
    __tsan_unaligned_read_write2 2, true; __tsan_unaligned_read_write4 4, true; __tsan_unaligned_read_write8 8, true; __tsan_unaligned_read_write16 16, true;
    __tsan_vptr_read 8, false;
    // ThreadSanitizer's volatile accesses
    __tsan_volatile_read1 1, false; __tsan_volatile_read2 2, false; __tsan_volatile_read4 4, false; __tsan_volatile_read8 8, false; __tsan_volatile_read16 16, false;
    __tsan_volatile_write1 1, true; __tsan_volatile_write2 2, true; __tsan_volatile_write4 4, true; __tsan_volatile_write8 8, true; __tsan_volatile_write16 16, true;
}
/// # Safety
/// called by instrumented code
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(a: usize, _v: usize) {
    plain(a, 8, true)
}
/// # Safety
/// called by instrumented code
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
/// # Safety
/// called by instrumented code
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_pc: usize) {}
/// # Safety
/// called by instrumented code
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
/// # Safety
/// called by instrumented code
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_begin() {}
/// # Safety
/// called by instrumented code
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_end() {}

/// # Safety
/// memcpy
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, f: *const c_void, n: usize) -> *mut c_void {
    plain(f as usize, n, false);
    plain(d as usize, n, true);
    libc::memcpy(d, f, n)
}
/// # Safety
/// memmove
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, f: *const c_void, n: usize) -> *mut c_void {
    plain(f as usize, n, false);
    plain(d as usize, n, true);
    libc::memmove(d, f, n)
}
/// # Safety
/// memset
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, v: i32, n: usize) -> *mut c_void {
    plain(d as usize, n, true);
    libc::memset(d, v, n)
}

// ---- atomics ----
fn acquires(mo: i32) -> bool {
    matches!(mo, 1 | 2 | 4 | 5)
}
fn releases(mo: i32) -> bool {
    matches!(mo, 3..=5)
}
extern "C" {
    static __executable_start: u8;
    static _end: u8;
}
/// Static atomics, and single bytes on the heap (the poison flags of locks), that were never written by an atomic
/// operation in any execution so far: reading those needs no scheduling point. When one is written after all, the
/// exploration starts again. Returns a name that is the same in every process.
fn constant(a: usize, size: usize) -> Option<u64> {
    let lo = &raw const __executable_start as usize;
    if lo <= a && a < &raw const _end as usize {
        return Some((a - lo) as u64);
    }
    if size == 1 && s().by_value {
        let x = unsafe { &(*ARENAS.0.get())[APP] };
        if x.lo <= a && a < x.next {
            return Some((a - x.lo) as u64 | 1 << 63);
        }
    }
    None
}
/// scheduling point before an atomic operation; false: not under the scheduler
#[inline]
fn enter_atomic(addr: usize, size: usize, write: bool, value: u64) -> bool {
    watch(addr, size, write);
    if !tracking() || !sched::on() || sched::in_rt() {
        return false;
    }
    if let Some(name) = constant(addr, size) {
        let _g = RtGuard::new();
        if !crate::choice::marked(name) {
            if !write {
                crate::choice::skip(name);
                return true;
            }
            crate::choice::mark(name);
        }
    }
    match spinning(addr, write, value) {
        0 => sched::point(),
        1 => {}
        _ => sched::yield_now(),
    }
    true
}
/// A thread that waits actively and has seen nothing new: the others go on before its first look or after it
/// gave up or, if it never does, every so often.
#[inline(never)]
fn spinning(addr: usize, write: bool, value: u64) -> u32 {
    let _g = RtGuard::new();
    let t = &mut s().thr[sched::me().unwrap()];
    if write {
        t.spin = (0, 0, 0);
        return 0;
    }
    if (t.spin.0, t.spin.1) != (addr, value) || t.spin.2 == 0 {
        t.spin = (addr, value, 1);
        return 0;
    }
    t.spin.2 += 1;
    if t.spin.2 % SPIN == 0 {
        2
    } else {
        1
    }
}
const SPIN: u32 = 128;
fn on_load(addr: usize, n: usize, mo: i32) {
    access_slow(addr, n, false, true);
    if s().by_value {
        return;
    }
    let _g = RtGuard::new();
    let m = sched::me().unwrap();
    let sc = s();
    if let Some(o) = sc.objs.get(&addr) {
        let t = &mut sc.thr[m];
        if acquires(mo) {
            vc_join(&mut t.vc, &o.vc);
        } else {
            vc_join(&mut t.pend_acq, &o.vc);
        }
        t.hist = crate::fx::mix(t.hist, o.hist);
    } else {
        let t = &mut sc.thr[m];
        t.hist = crate::fx::mix(t.hist, 0x10ad);
    }
}
fn on_store(addr: usize, n: usize, mo: i32, rmw: bool) {
    access_slow(addr, n, true, true);
    if s().by_value {
        return;
    }
    let _g = RtGuard::new();
    let m = sched::me().unwrap();
    let sc = s();
    let t = &mut sc.thr[m];
    let o = sc.objs.entry(addr).or_default();
    if !rmw {
        // a plain atomic store starts a new release sequence
        o.vc.clear();
    }
    if releases(mo) {
        vc_join(&mut o.vc, &t.vc);
    } else {
        vc_join(&mut o.vc, &t.rel_fence);
    }
    o.hist = crate::fx::mix(o.hist, t.hist);
    t.hist = crate::fx::mix(t.hist, o.hist);
    if releases(mo) {
        t.vc[m] += 1;
    }
}
fn fence(mo: i32) {
    if !enter_atomic(0, 0, true, 0) {
        return;
    }
    if s().by_value {
        return;
    }
    let _g = RtGuard::new();
    let m = sched::me().unwrap();
    let sc = s();
    if acquires(mo) {
        let p = std::mem::take(&mut sc.thr[m].pend_acq);
        vc_join(&mut sc.thr[m].vc, &p);
    }
    if mo == 5 {
        // sequentially consistent fences are totally ordered
        const FENCES: usize = 1;
        let o = sc.objs.entry(FENCES).or_default();
        vc_join(&mut sc.thr[m].vc, &o.vc);
        vc_join(&mut o.vc, &sc.thr[m].vc);
        o.hist = crate::fx::mix(o.hist, sc.thr[m].hist);
        sc.thr[m].hist = crate::fx::mix(sc.thr[m].hist, o.hist);
    }
    if releases(mo) {
        sc.thr[m].rel_fence = sc.thr[m].vc.clone();
        sc.thr[m].vc[m] += 1;
    }
}
/// # Safety
/// called by instrumented code
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    fence(mo);
    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
}
/// # Safety
/// called by instrumented code
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}

macro_rules! atomics {
    ($t:ty, $at:ident, $n:expr, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $casw:ident $cass:ident) => {
        /// # Safety
        /// called by instrumented code
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, mo: i32) -> $t {
            let a = &*(p as *const std::sync::atomic::$at);
            if enter_atomic(p as usize, $n, false, a.load(std::sync::atomic::Ordering::SeqCst) as u64) {
                on_load(p as usize, $n, mo);
            }
            a.load(std::sync::atomic::Ordering::SeqCst)
        }
        /// # Safety
        /// called by instrumented code
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, mo: i32) {
            let a = &*(p as *const std::sync::atomic::$at);
            if enter_atomic(p as usize, $n, true, 0) {
                on_store(p as usize, $n, mo, false);
            }
            a.store(v, std::sync::atomic::Ordering::SeqCst)
        }
        atomics!(@rmw $t, $at, $n, $xchg swap);
        atomics!(@rmw $t, $at, $n, $add fetch_add);
        atomics!(@rmw $t, $at, $n, $sub fetch_sub);
        atomics!(@rmw $t, $at, $n, $and fetch_and);
        atomics!(@rmw $t, $at, $n, $or fetch_or);
        atomics!(@rmw $t, $at, $n, $xor fetch_xor);
        atomics!(@rmw $t, $at, $n, $nand fetch_nand);
        /// # Safety
        /// called by instrumented code
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, mo: i32, fmo: i32) -> $t {
            let a = &*(p as *const std::sync::atomic::$at);
            use std::sync::atomic::Ordering::SeqCst;
            if enter_atomic(p as usize, $n, true, 0) {
                let ok = a.load(SeqCst) == old;
                on_load(p as usize, $n, if ok { mo } else { fmo });
                if ok {
                    on_store(p as usize, $n, mo, true);
                }
            }
            match a.compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        /// # Safety
        /// called by instrumented code
        #[no_mangle]
        pub unsafe extern "C" fn $cass(p: *mut $t, old: *mut $t, new: $t, mo: i32, fmo: i32) -> i32 {
            let o = *old;
            let x = $cas(p, o, new, mo, fmo);
            *old = x;
            (x == o) as i32
        }
        /// # Safety
        /// called by instrumented code
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *mut $t, old: *mut $t, new: $t, mo: i32, fmo: i32) -> i32 {
            $cass(p, old, new, mo, fmo)
        }
    };
    (@rmw $t:ty, $at:ident, $n:expr, $f:ident $op:ident) => {
        /// # Safety
        /// called by instrumented code
        #[no_mangle]
        pub unsafe extern "C" fn $f(p: *mut $t, v: $t, mo: i32) -> $t {
            let a = &*(p as *const std::sync::atomic::$at);
            if enter_atomic(p as usize, $n, true, 0) {
                on_load(p as usize, $n, mo);
                on_store(p as usize, $n, mo, true);
            }
            a.$op(v, std::sync::atomic::Ordering::SeqCst)
        }
    };
}
atomics!(u8, AtomicU8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_strong);
atomics!(u16, AtomicU16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_strong);
atomics!(u32, AtomicU32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_strong);
atomics!(u64, AtomicU64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_strong);

/// Global allocator of instrumented harnesses: fresh memory has no past. By value, what the code under test
/// and what the machinery allocate lie in address ranges of their own.
pub struct Alloc;
struct Arena {
    lo: usize,
    next: usize,
    free: [usize; 48],
}
const SPAN: usize = 1 << 35;
struct Arenas(UnsafeCell<[Arena; 2]>);
unsafe impl Sync for Arenas {}
static ARENAS: Arenas = Arenas(UnsafeCell::new([const { Arena { lo: 0, next: 0, free: [0; 48] } }; 2]));
static ARENA_LOCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const APP: usize = 0;
const MACHINERY: usize = 1;
fn arena_of(a: usize) -> Option<usize> {
    let x = unsafe { &*ARENAS.0.get() };
    (0..2).find(|&k| x[k].lo <= a && a < x[k].next)
}
fn locked<R>(f: impl FnOnce(&mut [Arena; 2]) -> R) -> R {
    use std::sync::atomic::Ordering::*;
    while ARENA_LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *ARENAS.0.get() });
    ARENA_LOCK.store(false, Release);
    r
}
fn class(l: Layout) -> usize {
    l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize
}
fn arena_alloc(k: usize, l: Layout) -> *mut u8 {
    locked(|x| {
        let x = &mut x[k];
        let c = class(l);
        if k == MACHINERY && x.free[c] != 0 {
            let p = x.free[c];
            unsafe {
                x.free[c] = *(p as *const usize);
                std::ptr::write_bytes(p as *mut u8, 0, 1 << c);
            }
            return p as *mut u8;
        }
        if x.lo == 0 {
            let p = unsafe {
                libc::mmap(
                    std::ptr::null_mut(),
                    SPAN,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                    -1,
                    0,
                )
            } as usize;
            if p == usize::MAX {
                return std::ptr::null_mut();
            }
            x.lo = p.next_multiple_of(1 << 30);
            x.next = x.lo;
        }
        let p = x.next.next_multiple_of((1 << c).min(1 << 30));
        if p + (1 << c) > x.lo + SPAN - (1 << 30) {
            return std::ptr::null_mut();
        }
        x.next = p + (1 << c);
        if k == APP {
            // earlier executions were here
            unsafe { std::ptr::write_bytes(p as *mut u8, 0, 1 << c) };
        }
        p as *mut u8
    })
}
fn arena_free(k: usize, p: *mut u8, l: Layout) {
    if k == APP {
        // no address is used twice in an execution: pointers left behind stay dangling
        return;
    }
    locked(|x| {
        let c = class(l);
        unsafe { *(p as *mut usize) = x[k].free[c] };
        x[k].free[c] = p as usize;
    })
}
fn s_by_value() -> bool {
    sched::on() && s().by_value
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if watching() {
            return guarded_alloc(l);
        }
        if s_by_value() {
            if sched::in_rt() {
                return arena_alloc(MACHINERY, l);
            }
            let p = arena_alloc(APP, l);
            if !p.is_null() {
                let _g = RtGuard::new();
                st().heap.insert(p as usize, Block { len: l.size(), epoch: 0, id: 0 });
            }
            return p;
        }
        let p = System.alloc(l);
        if tracking() && !p.is_null() && sched::me().is_some() && !sched::in_rt() {
            let _g = RtGuard::new();
            forget(p as usize, p as usize + l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if watching() && inside(p as usize) {
            if tracking() {
                access_slow(p as usize, l.size(), true, false);
            }
            return guarded_free(p as usize, l);
        }
        if let Some(k) = arena_of(p as usize) {
            if k == APP && !sched::in_rt() {
                let _g = RtGuard::new();
                st().heap.remove(&(p as usize));
            }
            return arena_free(k, p, l);
        }
        // giving memory back conflicts with every unordered access to it
        if tracking() {
            access_slow(p as usize, l.size(), true, false);
        }
        System.dealloc(p, l)
    }
}

// ---- memory errors ----
// Every block lies in a range of its own, followed by at least as many bytes that belong to nobody; fresh memory holds
// no useful values, and freed memory is not used again for long. A shadow byte per eight bytes says how many of them
// may be accessed.
const ROOM: usize = 1 << 37;
const KEEP: usize = 256;
struct Guarded {
    lo: usize,
    next: usize,
    shadow: usize,
    /// freed blocks per class: first, last, how many
    fifo: [(usize, usize, usize); 48],
    error: Option<String>,
    checked: u64,
}
struct GuardedCell(UnsafeCell<Guarded>);
unsafe impl Sync for GuardedCell {}
static GUARDED: GuardedCell = GuardedCell(UnsafeCell::new(Guarded { lo: usize::MAX, next: 0, shadow: 0, fifo: [(0, 0, 0); 48], error: None, checked: 0 }));
static mut WATCH: bool = false;
#[inline(always)]
fn watching() -> bool {
    unsafe { WATCH }
}
#[allow(clippy::mut_from_ref)]
fn gd() -> &'static mut Guarded {
    unsafe { &mut *GUARDED.0.get() }
}
#[inline(always)]
fn inside(a: usize) -> bool {
    a.wrapping_sub(unsafe { (*GUARDED.0.get()).lo }) < ROOM
}
/// from now on, memory accesses of instrumented code are checked against what is allocated
pub fn watch_memory() {
    let map = |n: usize| unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        ) as usize;
        if p == usize::MAX {
            crate::choice::machinery_error("no address space for watched memory");
        }
        p
    };
    let g = gd();
    g.lo = map(ROOM + (1 << 30)).next_multiple_of(1 << 30);
    g.next = g.lo + 4096;
    g.shadow = map(ROOM / 8);
    unsafe { WATCH = true };
}
fn guarded_class(l: Layout) -> usize {
    let size = l.size() + l.size().max(64);
    size.max(l.align()).next_power_of_two().trailing_zeros() as usize
}
fn shadow(g: &Guarded, p: usize, size: usize, live: bool) {
    let at = (g.shadow + (p - g.lo) / 8) as *mut u8;
    unsafe {
        std::ptr::write_bytes(at, if live { 8 } else { 0 }, size / 8);
        if size % 8 != 0 {
            *at.add(size / 8) = if live { (size % 8) as u8 } else { 0 };
        }
    }
}
fn guarded_alloc(l: Layout) -> *mut u8 {
    let p = locked(|_| {
        let g = gd();
        let c = guarded_class(l);
        let p = if g.fifo[c].2 > KEEP || (c > 20 && g.fifo[c].2 > 8) {
            let p = g.fifo[c].0;
            g.fifo[c].0 = unsafe { *(p as *const usize) };
            g.fifo[c].2 -= 1;
            p
        } else {
            let p = g.next.next_multiple_of((1 << c).min(1 << 30));
            if p + (1 << c) > g.lo + ROOM {
                return std::ptr::null_mut();
            }
            g.next = p + (1 << c);
            p
        };
        shadow(g, p, l.size(), true);
        unsafe { std::ptr::write_bytes(p as *mut u8, 0xa5, l.size()) };
        p as *mut u8
    });
    if tracking() && !p.is_null() && sched::me().is_some() && !sched::in_rt() {
        let _g = RtGuard::new();
        forget(p as usize, p as usize + l.size());
    }
    p
}
fn guarded_free(p: usize, l: Layout) {
    let live = unsafe { *((gd().shadow + (p - gd().lo) / 8) as *const u8) } != 0 || l.size() == 0;
    if !live {
        memory_error("frees memory that is not allocated".into());
        return;
    }
    locked(|_| {
        let g = gd();
        let c = guarded_class(l);
        shadow(g, p, l.size(), false);
        unsafe {
            std::ptr::write_bytes(p as *mut u8, 0x5a, l.size());
            if g.fifo[c].2 == 0 {
                g.fifo[c].0 = p;
            } else {
                *(g.fifo[c].1 as *mut usize) = p;
            }
        }
        g.fifo[c].1 = p;
        g.fifo[c].2 += 1;
    })
}
#[cold]
#[inline(never)]
fn memory_error(what: String) {
    let _g = RtGuard::new();
    if gd().error.is_none() {
        let text = format!("memory: {what}; at {}", place_in_code());
        gd().error = Some(text);
    }
}
#[inline(always)]
pub fn watch(addr: usize, n: usize, write: bool) {
    if watching() && inside(addr) && n > 0 {
        watch_slow(addr, n, write);
    }
}
fn watch_slow(addr: usize, n: usize, write: bool) {
    let g = gd();
    g.checked += 1;
    let at = |a: usize| unsafe { *((g.shadow + (a - g.lo) / 8) as *const u8) } as usize;
    let (mut a, end) = (addr, addr + n);
    while a < end {
        let e = end.min((a / 8 + 1) * 8);
        if at(a) < e - a / 8 * 8 {
            if sched::in_rt() {
                return;
            }
            // the block before
            let mut b = a / 8 * 8;
            let mut steps = 0;
            while b > g.lo && at(b) == 0 && steps < 16 {
                b -= 8;
                steps += 1;
            }
            let word = if write { "writes" } else { "reads" };
            let off = a.wrapping_sub(b + at(b));
            // (how far it is to a block further away is different in every execution)
            return memory_error(if at(b) == 0 || off >= 64 {
                format!("{word} {n} bytes that are not allocated (any more)")
            } else {
                format!("{word} {n} bytes that are not allocated, {off} bytes behind the last allocated ones")
            });
        }
        a = e;
    }
}
/// first memory error since the last call
pub fn take_memory_error() -> Option<String> {
    if watching() { gd().error.take() } else { None }
}
/// accesses checked since the last call
pub fn take_checked() -> u64 {
    std::mem::take(&mut gd().checked)
}
