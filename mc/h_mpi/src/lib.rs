//! Distributed runs under the simulated MPI.
pub use hx::*;
pub use mcrt::choice::{explore, merge_shuffles, Kind, Limits};
pub use mpi_sys::mc::{run, run_with};

pub const EAGER: [bool; 2] = [false, true];
pub fn mode(sync: bool) -> &'static str {
    if sync {
        "synchronous sends"
    } else {
        "buffered sends"
    }
}
/// every process returned the same optimal solution
pub fn all_optimal(n: usize, w: &[f64], opt: f64, r: &[(f64, Vec<usize>)]) -> Result<(), String> {
    for (k, x) in r.iter().enumerate() {
        check_exact(n, w, opt, x).map_err(|(_, m)| format!("process {k}: {m}"))?;
        if x.0.to_bits() != r[0].0.to_bits() || x.1 != r[0].1 {
            return Err(format!("process 0 returned {:?}, process {k} {x:?}", r[0]));
        }
    }
    Ok(())
}

/// default orders in which waiting senders are served: first come first served, and every fixed
/// preference among the workers (all of them up to four processes, rotations and reversals beyond)
pub fn preferences(size: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    let mut p: Vec<usize> = (0..size.saturating_sub(1)).collect();
    if p.len() < 2 {
        return v;
    }
    let put = |v: &mut Vec<Vec<usize>>, p: &[usize]| v.push(std::iter::once(0).chain(p.iter().map(|x| x + 1)).collect());
    if size <= 4 {
        loop {
            put(&mut v, &p);
            if !next_arrangement(&mut p) {
                return v;
            }
        }
    }
    for _ in 0..p.len() {
        put(&mut v, &p);
        let r: Vec<usize> = p.iter().rev().copied().collect();
        put(&mut v, &r);
        p.rotate_left(1);
    }
    v
}
/// what the library prints to the error stream in distributed mode is not part of any result
pub fn no_stderr() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 2);
            libc::close(fd);
        }
    }
}
