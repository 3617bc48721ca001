//! Harnesses that run walky, rayon and the standard library compiled with ThreadSanitizer's instrumentation
//! against our own runtime: every atomic operation is a scheduling point of the explorer, every plain access
//! is checked for happens-before order.
use hx::guard;
use mcrt::{sched, tsan};

pub mod modes;

#[global_allocator]
static ALLOC: tsan::Alloc = tsan::Alloc;

/// Run `f` as the first logical thread of one execution under the explorer's schedule, in a pool of `pool` threads.
pub fn scheduled<R>(pool: usize, f: impl FnOnce() -> R) -> Result<R, String> {
    mcrt::pool::set_size(pool);
    let r = guard(|| sched::run(true, f));
    if let Some(x) = tsan::race() {
        return Err(x);
    }
    r
}

/// likewise, with states told apart by value: reaches all results sooner, does not look for data races
pub fn scheduled_by_value<R>(pool: usize, f: impl FnOnce() -> R) -> Result<R, String> {
    mcrt::pool::set_size(pool);
    sched::s().by_value = true;
    let r = guard(|| sched::run(true, f));
    sched::s().by_value = false;
    r
}
