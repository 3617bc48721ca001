//! The command line: instances as files, the judgement of what it prints.
use crate::*;
use std::io::Write;
use std::os::fd::FromRawFd;

/// a file in memory with the instance
pub struct Input(pub std::fs::File, pub String);
pub fn input(n: usize, w: &[f64]) -> Input {
    file(crate::doc::doc_of(n, w, |x| format!("{x}")).text().as_bytes())
}
pub fn file(text: &[u8]) -> Input {
    use std::os::fd::AsRawFd;
    let fd = unsafe { libc::memfd_create(c"instance".as_ptr(), 0) };
    if fd < 0 {
        mcrt::choice::machinery_error("memfd_create failed");
    }
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    f.write_all(text).unwrap();
    let path = format!("/proc/self/fd/{}", f.as_raw_fd());
    Input(f, path)
}
/// what a run has to print
#[derive(Clone, Copy)]
pub struct Expect {
    pub exact: bool,
    pub nearest: bool,
    pub christofides: bool,
    pub one_tree: bool,
    pub tree: bool,
}
pub struct Facts {
    pub n: usize,
    pub w: Vec<f64>,
    pub opt: f64,
    pub nn: f64,
    pub one_tree: f64,
    pub tree: f64,
}
fn num(s: &str) -> Result<f64, String> {
    s.trim().parse::<f64>().map_err(|_| format!("not a number: {s}"))
}
fn list(s: &str) -> Result<Vec<usize>, String> {
    s.trim()
        .strip_prefix('[')
        .and_then(|s| s.strip_suffix(']'))
        .and_then(|s| s.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().ok()).collect())
        .ok_or(format!("not a list of cities: {s}"))
}
/// the lines one process printed
pub fn judge(f: &Facts, text: &str, e: &Expect, all: bool) -> Result<(), String> {
    let (mut cost, mut perm, mut chr, mut nnw, mut nnp, mut one, mut tree) = (None, None, None, None, None, None, None);
    for l in text.lines() {
        let Some((k, v)) = l.split_once(':') else {
            if l.trim().is_empty() {
                continue;
            }
            return Err(format!("prints {l:?}"));
        };
        let twice = match k {
            "Best Cost" => cost.replace(num(v)?).is_some(),
            "Best Permutation" => perm.replace(list(v)?).is_some(),
            "Christofides solution weight" => chr.replace(num(v)?).is_some(),
            "Nearest Neighbour solution weight" => nnw.replace(num(v)?).is_some(),
            "Nearest Neighbour solution" => nnp.replace(list(v)?).is_some(),
            "1-tree lower bound" => one.replace(num(v)?).is_some(),
            "MST lower bound" => tree.replace(num(v)?).is_some(),
            _ => return Err(format!("prints {l:?}")),
        };
        if twice {
            return Err(format!("prints its result twice: {text:?}"));
        }
    }
    let need = |want: bool, have: bool, what: &str| {
        if have && !want {
            return Err(format!("prints {what}, which was not asked for: {text:?}"));
        }
        if want && all && !have {
            return Err(format!("prints no {what}: {text:?}"));
        }
        Ok(())
    };
    need(e.exact, cost.is_some(), "optimal cost")?;
    need(e.exact, perm.is_some(), "optimal permutation")?;
    need(e.christofides, chr.is_some(), "Christofides weight")?;
    need(e.nearest, nnw.is_some(), "nearest-neighbour weight")?;
    need(e.nearest, nnp.is_some(), "nearest-neighbour tour")?;
    need(e.one_tree, one.is_some(), "one-tree bound")?;
    need(e.tree, tree.is_some(), "spanning-tree bound")?;
    let n = f.n;
    if let Some(x) = cost {
        if !close(x, f.opt) {
            return Err(format!("prints cost {x}, the optimum is {}", f.opt));
        }
    }
    if let Some(p) = perm {
        if !is_perm(n, &p) {
            return Err(format!("prints {p:?}, which is no permutation of {n} cities"));
        }
        if !close(tour(n, &f.w, &p), f.opt) {
            return Err(format!("prints {p:?} of length {}, the optimum is {}", tour(n, &f.w, &p), f.opt));
        }
    }
    if let Some(x) = nnw {
        if !close(x, f.nn) {
            return Err(format!("prints nearest-neighbour weight {x}, the best start gives {}", f.nn));
        }
    }
    if let Some(p) = nnp {
        if !is_perm(n, &p) || !is_greedy(n, &f.w, &p) || !close(tour(n, &f.w, &p), f.nn) {
            return Err(format!("prints {p:?}, which is no nearest-neighbour tour of length {}", f.nn));
        }
    }
    if let Some(x) = chr {
        if !leq(f.opt, x) {
            return Err(format!("prints Christofides weight {x} below the optimum {}", f.opt));
        }
        if n <= 5 && !leq(x, 1.5 * f.opt) {
            return Err(format!("prints Christofides weight {x} above 1.5 times the optimum {}", f.opt));
        }
    }
    if let Some(x) = one {
        if !close(x, f.one_tree) {
            return Err(format!("prints one-tree bound {x}, expected {}", f.one_tree));
        }
    }
    if let Some(x) = tree {
        if !close(x, f.tree) {
            return Err(format!("prints spanning-tree bound {x}, expected {}", f.tree));
        }
    }
    Ok(())
}
pub const NONE: Expect = Expect { exact: false, nearest: false, christofides: false, one_tree: false, tree: false };

pub fn facts(n: usize, w: &[f64]) -> Facts {
    let m = na(n, w);
    let nn = (0..n)
        .map(|s| walky::solvers::approximate::nearest_neighbour::single_nearest_neighbour(&m, s).0)
        .fold(f64::INFINITY, f64::min);
    let tree = mst(n, w, &(0..n).collect::<Vec<_>>());
    Facts {
        n,
        w: w.to_vec(),
        // no tour is shorter than a spanning tree
        opt: if n <= 12 { optimum(n, w) } else { tree },
        nn,
        one_tree: if n >= 2 { one_tree_bound(n, w) } else { 0.0 },
        tree,
    }
}
