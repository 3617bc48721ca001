//! The data-parallel modes, each run under every bounded schedule and work split with race detection, judged and
//! compared with the sequential mode on the same random draws.
use crate::scheduled;
use hx::*;
use mcrt::choice::{explore, repeat_data, Kind, Limits};
use std::rc::Rc;
use walky::computation_mode::*;
use walky::datastructures::{AdjacencyMatrix, NAMatrix};
use walky::mst::*;
use walky::one_tree::*;
use walky::solvers::approximate::christofides::*;
use walky::solvers::approximate::matching::*;
use walky::solvers::approximate::nearest_neighbour::*;

#[derive(Clone, Copy)]
pub struct Bounds {
    pub pool: usize,
    pub steals: u32,
    pub preempt: u32,
    pub data: u32,
}
impl Bounds {
    fn limits(&self) -> Limits {
        Limits::all()
            .with(Kind::Steal, self.steals)
            .with(Kind::Preempt, self.preempt)
            .with(Kind::Data, self.data)
            .cap(200_000)
    }
}
fn same(what: &str, seq: f64, par: f64) -> Result<(), String> {
    if close(seq, par) || seq == par {
        Ok(())
    } else {
        Err(format!("{what}: multi-threaded {par}, sequential {seq}"))
    }
}
/// do all sums of different sets of costs differ? (then there is nothing to choose between equally good results)
fn generic(w: &[f64]) -> bool {
    if w.len() > 15 {
        return false;
    }
    let mut sums: Vec<f64> = (0..1u32 << w.len())
        .map(|m| (0..w.len()).filter(|i| m >> i & 1 == 1).map(|i| w[i]).sum())
        .collect();
    sums.sort_by(f64::total_cmp);
    sums.windows(2).all(|x| x[1] - x[0] > 1e-6)
}

fn account(c: &mut Ctx, what: &str, acc: u64, e: &mcrt::Explored) {
    c.count("accesses_checked", acc);
    c.explored(what, e);
}

pub fn trees(c: &mut Ctx, n: usize, w: &[f64], b: Bounds) {
    let m = na(n, w);
    let some = if n > 5 { 1 } else { n };
    for ex in std::iter::once(vec![])
        .chain((0..some).map(|v| vec![v]))
        .chain((n > 2).then(|| vec![n - 1, 0]))
    {
        let mut acc = 0;
        let e = explore(b.limits(), || {
            let g = scheduled(b.pool, || prim_with_excluded_node_multi_threaded(&m, &ex))?;
            acc += mcrt::tsan::accesses();
            judge_tree(n, w, &ex, &g).map_err(|e| format!("spanning tree without {ex:?}: {e}"))
        });
        account(c, "spanning-tree", acc, &e);
    }
}

pub fn one_trees(c: &mut Ctx, n: usize, w: &[f64], b: Bounds) {
    let m = na(n, w);
    let seq = match guard(|| one_tree_lower_bound::<SEQ_COMPUTATION>(&m)) {
        Ok(x) => x,
        Err(e) => return c.fail("sequential", e),
    };
    let mut acc = 0;
    let e = explore(b.limits(), || {
        let par = scheduled(b.pool, || one_tree_lower_bound::<PAR_COMPUTATION>(&m))?;
        acc += mcrt::tsan::accesses();
        same("one-tree bound", seq, par)
    });
    account(c, "one-tree", acc, &e);
}

pub fn nearest(c: &mut Ctx, n: usize, w: &[f64], b: Bounds) {
    let m = na(n, w);
    for k in [1, 2, n] {
        let k = k.min(n);
        let mut acc = 0;
        let e = explore(b.limits(), || {
            let par = scheduled(b.pool, || n_nearest_neighbour::<PAR_COMPUTATION>(&m, k))?;
            acc += mcrt::tsan::accesses();
            judge_greedy(n, w, &par)
                .map_err(|e| format!("multi-threaded nearest neighbour from {k} starts: {e}"))?;
            repeat_data();
            let seq = guard(|| n_nearest_neighbour::<SEQ_COMPUTATION>(&m, k))?;
            same(&format!("nearest neighbour from {k} starts"), seq.0, par.0)
        });
        account(c, "nearest-neighbour", acc, &e);
    }
}

pub fn christofides_tours(c: &mut Ctx, n: usize, w: &[f64], b: Bounds) {
    let m = na(n, w);
    let g = generic(w);
    let opt = if n <= 9 { optimum(n, w) } else { 0.0 };
    let mut acc = 0;
    let e = explore(b.limits(), || {
        let par = scheduled(b.pool, || christofides::<PAR_COMPUTATION>(&m))?;
        acc += mcrt::tsan::accesses();
        judge_cycle(n, w, opt, &par).map_err(|e| format!("multi-threaded christofides: {e}"))?;
        if n <= 5 && !leq(par.0, 1.5 * opt) {
            return Err(format!("multi-threaded christofides: {par:?} above 1.5 times the optimum {opt}"));
        }
        if g {
            repeat_data();
            let seq = guard(|| christofides::<SEQ_COMPUTATION>(&m))?;
            same("christofides", seq.0, par.0)?;
        }
        Ok(())
    });
    account(c, "christofides", acc, &e);
}

pub fn matchings(c: &mut Ctx, n: usize, w: &[f64], b: Bounds) {
    // a matching of every even number of the cities
    for k in (2..=n).step_by(2) {
        matching(c, n, w, k, b);
    }
}
fn matching(c: &mut Ctx, n: usize, w: &[f64], k: usize, b: Bounds) {
    let m = na(n, w);
    let g = generic(w);
    {
        let mut acc = 0;
        let e = explore(b.limits(), || {
            let vs: Vec<usize> = (0..k).collect();
            let par = scheduled(b.pool, || approx_min_cost_matching::<PAR_COMPUTATION>(&m, vs.clone(), 2))?;
            acc += mcrt::tsan::accesses();
            if !is_perfect_matching(&vs, &par) {
                return Err(format!("multi-threaded matching of {k} cities: {par:?}"));
            }
            if g {
                repeat_data();
                let seq = guard(|| approx_min_cost_matching::<SEQ_COMPUTATION>(&m, vs.clone(), 2))?;
                same("matching", matching_cost(n, w, &seq), matching_cost(n, w, &par))?;
            }
            Ok(())
        });
        account(c, "matching", acc, &e);
    }
}

pub fn points(c: &mut Ctx, p: &[[f64; 2]], b: Bounds) {
    let seq = match guard(|| NAMatrix::from_points(p)) {
        Ok(x) => x,
        Err(e) => return c.fail("sequential", e),
    };
    let mut acc = 0;
    let e = explore(b.limits(), || {
        let par = scheduled(b.pool, || NAMatrix::par_from_points(p))?;
        acc += mcrt::tsan::accesses();
        judge_points(p, &seq, &par).map_err(|e| format!("multi-threaded: {e}"))
    });
    account(c, "points", acc, &e);
}

/// the matching only splits its work from two thousand pairs of edges on
fn large_matching(c: &mut Ctx, k: usize, b: Bounds) {
    // no two sums of two costs alike
    let n = k;
    let mut m = NAMatrix::from_dim(n);
    for i in 0..n {
        for j in i + 1..n {
            let c = 1.0 + (mcrt::fx::mix(i as u64 + 1, j as u64) >> 11) as f64 / (1u64 << 53) as f64;
            m.set(i, j, c);
            m.set(j, i, c);
        }
    }
    let vs: Vec<usize> = (0..k).collect();
    c.begin(&format!("matching of {k} vertices"), &[k as f64]);
    let mut acc = 0;
    let e = explore(b.limits(), || {
        let par = scheduled(b.pool, || approx_min_cost_matching::<PAR_COMPUTATION>(&m, vs.clone(), 2))?;
        acc += mcrt::tsan::accesses();
        let mut have: Vec<usize> = par.iter().flatten().copied().collect();
        let mut want = vs.clone();
        have.sort_unstable();
        want.sort_unstable();
        if have != want {
            return Err(format!("multi-threaded matching of {k} vertices loses some of them"));
        }
        repeat_data();
        let seq = guard(|| approx_min_cost_matching::<SEQ_COMPUTATION>(&m, vs.clone(), 2))?;
        let cost = |x: &[[usize; 2]]| x.iter().map(|e| m[(e[0], e[1])]).sum::<f64>();
        same("large matching", cost(&seq), cost(&par))
    });
    account(c, "large-matching", acc, &e);
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Trees,
    OneTrees,
    Nearest,
    Christofides,
    Matchings,
    Points,
}
use Mode::*;
pub const ALL: &[Mode] = &[Trees, OneTrees, Nearest, Christofides, Matchings, Points];

fn check(c: &mut Ctx, modes: &[Mode], n: usize, w: &[f64], b: Bounds) {
    for m in modes {
        match m {
            Trees => trees(c, n, w, b),
            OneTrees => one_trees(c, n, w, b),
            Nearest => nearest(c, n, w, b),
            Christofides => christofides_tours(c, n, w, b),
            Matchings => matchings(c, n, w, b),
            Points => {}
        }
    }
}

/// the units of some modes
pub fn units(s: &mut Spec, modes: &'static [Mode]) {
    let t = mcrt::drv::tier() == Tier::Thorough;
    let b = |pool, steals, preempt, data| Bounds { pool, steals, preempt, data };
    let has = |m: Mode| modes.contains(&m);
    if has(Trees) || has(OneTrees) || has(Nearest) {
        let any: Vec<Mode> = modes.iter().copied().filter(|m| [Trees, OneTrees, Nearest].contains(m)).collect();
        let any: &'static [Mode] = Vec::leak(any);
        let mut p = Plan { chunk: 8, ..Plan::default() };
        p.full = vec![(2, TWO), (3, TWO), (3, MIX)];
        p.plain = vec![3];
        p.add(s, "interleaved small ", Rc::new(move |c, _, n, w| check(c, any, n, w, b(3, if t { 6 } else { 2 }, 2, u32::MAX))));
        let mut p = Plan { chunk: 4, ..Plan::default() };
        p.full = vec![(4, BIN)];
        p.plain = vec![4];
        if t {
            p.plain.push(5);
            p.full.push((4, INT3));
            p.residues = vec![(5, 24), (6, 24)];
        }
        p.add(s, "interleaved pairs ", Rc::new(move |c, _, n, w| check(c, any, n, w, b(2, if t { 3 } else { 2 }, 2, 2))));
        let mut p = Plan { chunk: 2, ..Plan::default() };
        p.residues = vec![(4, 24), (5, 24), (6, 12), (7, 12), (9, 6)];
        p.plain = vec![5, 6, 8, 12];
        p.add(s, "interleaved medium ", Rc::new(move |c, _, n, w| check(c, any, n, w, b(4, if t { 2 } else { 1 }, 1, 1))));
        // one start (special city) alone is the best one, at the borders of the usual ways to divide the cities
        for n in [17usize, 33, 65, 130] {
            for at in borders(n) {
                if n > 65 && at < 63 && at > 0 {
                    continue;
                }
                s.unit(format!("interleaved placed-n{n}-{at}"), move |c| {
                    let w = scattered(n, 0);
                    let m = na(n, &w);
                    let bounds = b(if n > 33 { 4 } else { 2 }, (n <= 33 || t) as u32, 0, 0);
                    let starts: Vec<f64> = (0..n).map(|s| guard(|| -single_nearest_neighbour(&m, s).0).unwrap_or(0.0)).collect();
                    let specials: Vec<f64> = (0..n).map(|v| one_tree_weight(n, &w, v)).collect();
                    for (mode, v) in [(Nearest, &starts), (OneTrees, &specials)] {
                        let (Some(best), true) = (unique_max(v), any.contains(&mode)) else { continue };
                        let w = exchanged(n, &w, best, at);
                        c.begin("placed", &[n as f64, at as f64]);
                        mcrt::drv::distinct(hash_instance(n, &w));
                        check(c, &[mode], n, &w, bounds);
                    }
                    if any.contains(&Trees) && at == n - 1 {
                        c.begin("placed", &[n as f64, at as f64]);
                        trees(c, n, &w, bounds);
                    }
                });
            }
        }
    }
    if has(Christofides) || has(Matchings) {
        let any: Vec<Mode> = modes.iter().copied().filter(|m| [Christofides, Matchings].contains(m)).collect();
        let any: &'static [Mode] = Vec::leak(any);
        let mut p = Plan { chunk: 4, metric: true, ..Plan::default() };
        p.full = vec![(3, TWO), (4, TWO)];
        p.plain = vec![4, 5];
        p.add(s, "interleaved metric ", Rc::new(move |c, _, n, w| check(c, any, n, w, b(2, if t { 2 } else { 1 }, 2, 1))));
        let mut p = Plan { chunk: 2, metric: true, ..Plan::default() };
        p.residues = vec![(4, 24), (5, 24), (6, 24), (7, 12), (9, 6)];
        p.plain = vec![6, 8, 12];
        p.add(s, "interleaved metric medium ", Rc::new(move |c, _, n, w| check(c, any, n, w, b(4, if t { 2 } else { 1 }, 0, (n <= 7 || t) as u32))));
        let mut p = Plan { chunk: 1, metric: true, ..Plan::default() };
        p.residues = vec![(17, 12), (33, 12), (65, 12)];
        p.add(s, "interleaved metric large ", Rc::new(move |c, _, n, w| {
            for m in any {
                match m {
                    Christofides => christofides_tours(c, n, w, b(4, 0, 0, 0)),
                    _ => matching(c, n, w, n & !1, b(4, 0, 0, 0)),
                }
            }
        }));
    }
    if has(Points) {
        for n in [1usize, 2, 3, 4, 5, 7, 9, 16, 33, 65, 129, 257] {
            for k in 0..4u64 {
                s.unit(format!("interleaved points {n} {k}"), move |c| {
                    let p: Vec<[f64; 2]> = (0..n as u64)
                        .map(|i| [((i * i * 7 + i * k + k) % 13) as f64 - 3.0, ((i * (5 + k) + 2) % 11) as f64 / 4.0])
                        .collect();
                    let flat: Vec<f64> = p.iter().flatten().copied().collect();
                    c.begin("points", &flat);
                    points(c, &p, b(if n < 5 { 3 } else { 2 }, if n < 9 { 3 } else if n < 64 { 2 } else { 0 }, (n < 64) as u32, 0));
                });
            }
        }
    }
    if has(Matchings) {
        for k in [4000usize, 8000, 8002, 8006] {
            s.unit(format!("interleaved large matching {k}"), move |c| large_matching(c, k, b(2, 2, 1, 0)));
        }
    }
}
