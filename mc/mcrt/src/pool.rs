//! Slots of the simulated thread pool: at most `size` tasks run at once; a task waiting for another lends
//! its slot.
use crate::sched;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering::*};

static SIZE: AtomicUsize = AtomicUsize::new(4);
pub fn set_size(n: usize) {
    SIZE.store(n.max(1), SeqCst);
}
pub fn size() -> usize {
    SIZE.load(SeqCst)
}
#[derive(Default)]
struct P {
    used: Vec<bool>,
    extra: usize,
    waiting: Vec<usize>,
}
struct G(UnsafeCell<Option<P>>);
unsafe impl Sync for G {}
static POOL: G = G(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
fn p() -> &'static mut P {
    unsafe { (*POOL.0.get()).get_or_insert_with(P::default) }
}
/// start of a scheduled execution
pub fn reset() {
    let q = p();
    q.used.clear();
    q.extra = 0;
    q.waiting.clear();
}
/// the pool's part of the state of an execution
pub fn hash() -> u64 {
    use crate::fx::mix;
    let q = p();
    let h = q.used.iter().fold(0x9001, |h, &u| mix(h, u as u64));
    q.waiting.iter().fold(h, |h, &t| mix(h, t as u64))
}
fn active() -> bool {
    sched::on() && sched::s().explore
}
fn take(w: usize) -> Option<usize> {
    let q = p();
    if q.used.len() < w {
        q.used.resize(w, false);
    }
    let i = (0..w).find(|&i| !q.used[i])?;
    q.used[i] = true;
    Some(i)
}
/// is a pool thread idle?
pub fn free(w: usize) -> bool {
    if !active() {
        return w > 1;
    }
    let q = p();
    q.used.len() < w || q.used[..w].iter().any(|u| !u)
}
pub fn enter(w: usize, _outermost: bool) -> usize {
    if !active() {
        return 0;
    }
    let _g = sched::RtGuard::new();
    loop {
        if let Some(i) = take(w) {
            sched::note(i as u64);
            return i;
        }
        p().waiting.push(sched::me().unwrap());
        sched::block("an idle thread in the pool of", size());
    }
}
pub fn leave(i: usize) {
    if !active() || i == usize::MAX {
        return;
    }
    let _g = sched::RtGuard::new();
    let q = p();
    if i < q.used.len() {
        q.used[i] = false;
    }
    for t in std::mem::take(&mut q.waiting) {
        sched::unblock(t);
    }
}
/// the task in slot `i` waits: its thread can run others
pub fn lend(i: usize) {
    leave(i)
}
/// the waiting ended: the task goes on (its thread may be inside another task in the simulation, in
/// reality it resumes only when that one has returned; both orders are explored)
pub fn unlend(i: usize) {
    if !active() || i == usize::MAX {
        return;
    }
    let _g = sched::RtGuard::new();
    let q = p();
    if i < q.used.len() && !q.used[i] {
        q.used[i] = true;
    }
}
