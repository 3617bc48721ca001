//! Cooperative coroutines on their own stacks, all on one OS thread (x86-64).
use std::cell::UnsafeCell;

const STACK: usize = 4 << 20;

#[unsafe(naked)]
unsafe extern "C" fn switch(_save: *mut usize, _to: usize) {
    std::arch::naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
        "ret",
    )
}

struct G {
    main: usize,
    cur: usize,
    sp: Vec<usize>,
    stacks: Vec<usize>,
    jobs: Vec<Option<Box<dyn FnOnce()>>>,
    done: Vec<bool>,
    hist: Vec<u64>,
    shuffles: Vec<u64>,
}
struct Cell_(UnsafeCell<G>);
unsafe impl Sync for Cell_ {}
static ALL: Cell_ = Cell_(UnsafeCell::new(G {
    main: 0,
    cur: usize::MAX,
    sp: Vec::new(),
    stacks: Vec::new(),
    jobs: Vec::new(),
    done: Vec::new(),
    hist: Vec::new(),
    shuffles: Vec::new(),
}));
#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut G {
    unsafe { &mut *ALL.0.get() }
}

fn new_stack() -> usize {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            STACK + 4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        assert!(libc::mprotect(p, 4096, libc::PROT_NONE) == 0);
        p as usize + 4096
    }
}

extern "C" fn entry() -> ! {
    {
        let c = g().cur;
        let f = g().jobs[c].take().expect("fiber job");
        f();
        g().done[c] = true;
    }
    park();
    std::process::abort()
}

/// Forget all coroutines (unfinished ones are abandoned) and prepare the given ones.
pub fn prepare(jobs: Vec<Box<dyn FnOnce()>>) {
    let g = g();
    assert!(g.cur == usize::MAX, "nested coroutines");
    while g.stacks.len() < jobs.len() {
        g.stacks.push(new_stack());
    }
    g.sp.clear();
    g.done.clear();
    g.hist.clear();
    g.shuffles.clear();
    // jobs never started are dropped, abandoned stacks are simply reused
    g.jobs.clear();
    for (k, j) in jobs.into_iter().enumerate() {
        let top = g.stacks[k] + STACK;
        // at entry the stack pointer has to be 8 modulo 16
        let sp = top - 24 - 7 * 8;
        unsafe {
            let p = sp as *mut usize;
            for i in 0..6 {
                *p.add(i) = 0;
            }
            *p.add(6) = entry as *const () as usize;
            *p.add(7) = 0;
        }
        g.sp.push(sp);
        g.jobs.push(Some(j));
        g.done.push(false);
        g.hist.push(k as u64);
        g.shuffles.push(0);
    }
}
/// Run coroutine `i` until it parks or ends.
pub fn resume(i: usize) {
    let g = g();
    assert!(g.cur == usize::MAX && !g.done[i]);
    g.cur = i;
    unsafe { switch(&mut g.main, g.sp[i]) };
    g.cur = usize::MAX;
}
/// Back to the caller of `resume`.
pub fn park() {
    let g = g();
    let c = g.cur;
    assert!(c != usize::MAX, "park outside a coroutine");
    let main = g.main;
    unsafe { switch(&mut g.sp[c], main) };
}
pub fn current() -> Option<usize> {
    let c = g().cur;
    (c != usize::MAX).then_some(c)
}
pub fn done(i: usize) -> bool {
    g().done[i]
}
/// mix a value into the history of the running coroutine
pub fn note(v: u64) {
    let g = g();
    if let Some(h) = g.hist.get_mut(g.cur) {
        *h = crate::fx::mix(*h, v ^ 0xc0ffee);
    }
}
/// Replace the history of the running coroutine (where the caller knows all that its future depends on),
/// returns the combined history of all.
pub fn shuffled(fp: u64) -> u64 {
    let g = g();
    let c = g.cur;
    g.shuffles[c] += 1;
    g.hist[c] = crate::fx::mix(crate::fx::mix(fp, c as u64), g.shuffles[c]);
    g.hist.iter().zip(&g.done).fold(0x51, |h, (x, d)| crate::fx::mix(h, x ^ *d as u64))
}
pub fn history(i: usize) -> u64 {
    g().hist[i]
}
