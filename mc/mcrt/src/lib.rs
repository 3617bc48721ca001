//! Model-checking runtime: choice explorer, controlled scheduler, fork driver, evidence writer.
pub mod choice;
pub mod drv;
pub mod fiber;
pub mod fx;
pub mod interpose;
pub mod json;
pub mod pool;
pub mod sched;
#[cfg(feature = "tsan")]
pub mod tsan;

pub use choice::{choose, explore, Explored, Kind, Limits};

/// the machinery accesses memory on behalf of the code under test
#[cfg(feature = "tsan")]
pub fn watch(addr: usize, n: usize, write: bool) {
    tsan::watch(addr, n, write);
}
#[cfg(not(feature = "tsan"))]
#[inline(always)]
pub fn watch(_addr: usize, _n: usize, _write: bool) {}
#[cfg(feature = "tsan")]
pub use tsan::take_memory_error;
#[cfg(not(feature = "tsan"))]
#[inline(always)]
pub fn take_memory_error() -> Option<String> {
    None
}
