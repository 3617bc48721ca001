//! Bridge to the explorer: which outcome a random draw has is one of its choices.
use mcrt::choice::{choose, free_stream, Kind};

/// an index below `range` (0 stands for the full width of the type)
pub(crate) fn index(range: u128, bytes: usize) -> Option<u128> {
    let range = if range == 0 { if bytes >= 16 { return None } else { 1u128 << (8 * bytes) } } else { range };
    if range == 1 {
        return Some(0);
    }
    if let Some(r) = free_stream() {
        return Some(r as u128 % range);
    }
    if range > 1 << 20 {
        return Some([0, range / 2, range - 1][choose(Kind::Data, 3)]);
    }
    // the first alternative is the last index: it leaves a shuffle unchanged
    Some(range - 1 - choose(Kind::Data, range as usize) as u128)
}
/// mantissa of a uniform double in [0,1), in units of 2^-53
pub(crate) fn float53() -> Option<u64> {
    Some(match free_stream() {
        Some(r) => r >> 11,
        None => mcrt::choice::float53(),
    })
}
pub(crate) fn raw() -> u64 {
    match free_stream() {
        Some(r) => r,
        None => [0, 1 << 63, u64::MAX][choose(Kind::Data, 3)],
    }
}
pub(crate) fn shuffling<T>(xs: &[T]) {
    let sz = core::mem::size_of::<T>();
    if (sz == 8 || sz == 16) && !core::mem::needs_drop::<T>() {
        // plain words (indices or pairs of indices)
        let b = unsafe { core::slice::from_raw_parts(xs.as_ptr() as *const u8, sz * xs.len()) };
        mcrt::choice::shuffling(b, sz);
    }
}
