//! C14: distributed heuristics and bounds.
use h_mpi::*;
use mpi::topology::{Communicator, SystemCommunicator};
use std::rc::Rc;
use walky::computation_mode::*;
use walky::mst::prim;
use walky::one_tree::one_tree_lower_bound;
use walky::solvers::approximate::christofides::christofides;
use walky::solvers::approximate::matching::*;
use walky::solvers::approximate::nearest_neighbour::*;

fn neighbours(c: &mut Ctx, n: usize, w: &[f64], sizes: &[usize], budget: u32) {
    let m = na(n, w);
    let want = (0..n)
        .map(|s| single_nearest_neighbour(&m, s).0)
        .fold(f64::INFINITY, f64::min);
    for &size in sizes {
        for y in EAGER {
            for alias in 0..2 {
                if alias == 1 && (y || size > 3) {
                    continue;
                }
                let e = explore(Limits::all().with(Kind::Msg, budget), || {
                    let r = run(size, y, |_| match alias {
                        0 => nearest_neighbour_mpi(&m),
                        _ => nearest_neighbour::<MPI_COMPUTATION>(&m),
                    });
                    let judge = |r: Vec<(f64, Vec<usize>)>| {
                        for (k, x) in r.iter().enumerate() {
                            if x.0.to_bits() != r[0].0.to_bits() || x.1 != r[0].1 {
                                return Err(format!("process 0 returned {:?}, process {k} {x:?}", r[0]));
                            }
                        }
                        if !is_perm(n, &r[0].1) || !is_greedy(n, w, &r[0].1) {
                            return Err(format!("{:?} is not a nearest-neighbour tour", r[0].1));
                        }
                        let t = tour(n, w, &r[0].1);
                        if !close(t, r[0].0) {
                            return Err(format!("reported {} but {:?} has length {t}", r[0].0, r[0].1));
                        }
                        if !close(r[0].0, want) {
                            return Err(format!("cost {}, the best start gives {want}", r[0].0));
                        }
                        Ok(())
                    };
                    r.and_then(judge).map_err(|e| format!("nearest neighbour, {size} processes, {}: {e}", mode(y)))
                });
                c.explored("nearest-neighbour", &e);
            }
        }
    }
}
fn bounds(c: &mut Ctx, n: usize, w: &[f64], sizes: &[usize]) {
    let m = na(n, w);
    let want = one_tree_bound(n, w);
    let tree = mst(n, w, &(0..n).collect::<Vec<_>>());
    for &size in sizes {
        for y in EAGER {
            // with and without MPI initialized by the caller
            for outer in [false, true] {
                let e = explore(Limits::all(), || {
                    let r = run(size, y, |_| {
                        let _universe = if outer { mpi::initialize() } else { None };
                        one_tree_lower_bound::<MPI_COMPUTATION>(&m)
                    })
                    .map_err(|e| format!("one-tree bound, {size} processes, {}: {e}", mode(y)))?;
                    if !close(r[0], want) {
                        return Err(format!("one-tree bound {} at the root of {size} processes, expected {want}", r[0]));
                    }
                    Ok(())
                });
                c.explored("one-tree", &e);
            }
        }
    }
    {
        match guard(|| prim::<MPI_COMPUTATION>(&m).undirected_edge_weight()) {
            Err(e) => c.fail("mst-panic", e),
            Ok(b) if !close(b, tree) => c.fail("mst", format!("distributed spanning tree {b}, minimum {tree}")),
            _ => {}
        }
    }
}
/// what the processes other than the root do (as the command line runs them)
fn worker(rank: i32, world: SystemCommunicator) -> Vec<[usize; 2]> {
    let root = world.process_at_rank(0);
    let mut tries = 0;
    let none = na(1, &[]);
    let (mut matching, graph) = bootstrap_mpi_matching_calc(&root, &mut [], rank, &mut tries, &none);
    mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
    matching
}
#[allow(dead_code)]
enum Out {
    Tour((f64, Vec<usize>)),
    Matching(Vec<[usize; 2]>),
}
fn christo(c: &mut Ctx, n: usize, w: &[f64], sizes: &[usize], sync: &[bool], data: u32, cap: u64) {
    let m = na(n, w);
    // no tour is shorter than a spanning tree
    let opt = if n <= 12 { optimum(n, w) } else { mst(n, w, &(0..n).collect::<Vec<_>>()) };
    for &size in sizes {
        for &y in sync {
            merge_shuffles(true);
            let e = explore(Limits::all().with(Kind::Data, data).with(Kind::Msg, if size <= 3 { u32::MAX } else { 2 }).cap(cap), || {
                let r = run(size, y, |rank| {
                    let _universe = mpi::initialize();
                    if rank == 0 {
                        Out::Tour(christofides::<MPI_COMPUTATION>(&m))
                    } else {
                        Out::Matching(worker(rank as i32, SystemCommunicator::world()))
                    }
                });
                let judge = |r: Vec<Out>| {
                    let Out::Tour((cost, p)) = &r[0] else { unreachable!() };
                    if p.len() != n + 1 || p.first() != p.last() || !is_perm(n, &p[..n]) {
                        return Err(format!("{p:?} is not a closed tour through all {n} cities"));
                    }
                    let t = tour(n, w, &p[..n]);
                    if !close(t, *cost) {
                        return Err(format!("reported {cost} but {p:?} has length {t}"));
                    }
                    if !leq(opt, t) {
                        return Err(format!("length {t} below the optimum {opt}"));
                    }
                    if n <= 5 && !leq(t, 1.5 * opt) {
                        return Err(format!("{n} cities, tour {t} above 1.5 times the optimum {opt}"));
                    }
                    Ok(())
                };
                r.and_then(judge).map_err(|e| format!("Christofides, {size} processes, {}: {e}", mode(y)))
            });
            merge_shuffles(false);
            c.explored("christofides", &e);
        }
    }
}
/// the matching step on its own: root through the library's entry point
fn matching(c: &mut Ctx, n: usize, w: &[f64], vs: &[usize], tries: usize, sizes: &[usize], sync: &[bool], data: u32, cap: u64) {
    let m = na(n, w);
    let best = if vs.len() <= 4 { min_matching(n, w, vs) } else { 0.0 };
    for &size in sizes {
        for &y in sync {
            merge_shuffles(true);
            let e = explore(Limits::all().with(Kind::Data, data).with(Kind::Msg, if size <= 3 { u32::MAX } else { 2 }).cap(cap), || {
                let r = run(size, y, |rank| {
                    let _universe = mpi::initialize();
                    if rank == 0 {
                        approx_min_cost_matching::<MPI_COMPUTATION>(&m, vs.to_vec(), tries)
                    } else {
                        worker(rank as i32, SystemCommunicator::world())
                    }
                });
                let judge = |r: Vec<Vec<[usize; 2]>>| {
                    for (k, x) in r.iter().enumerate() {
                        if !is_perfect_matching(vs, x) {
                            return Err(format!("process {k}: {x:?} does not match {vs:?}"));
                        }
                        if *x != r[0] {
                            return Err(format!("process 0 has {:?}, process {k} {x:?}", r[0]));
                        }
                    }
                    let got = matching_cost(n, w, &r[0]);
                    if vs.len() <= 4 && tries > 0 && !close(got, best) {
                        return Err(format!("{:?} costs {got}, minimum {best}", r[0]));
                    }
                    Ok(())
                };
                r.and_then(judge).map_err(|e| format!("matching of {vs:?}, {tries} rounds, {size} processes, {}: {e}", mode(y)))
            });
            merge_shuffles(false);
            c.explored("matching", &e);
        }
    }
}
/// with every outcome of the shuffles, the best of the processes' matchings is kept
fn best_kept(c: &mut Ctx, n: usize, w: &[f64], sizes: &[usize], data: u32) {
    use std::cell::RefCell;
    let m = na(n, w);
    for &size in sizes {
        let e = explore(Limits::all().with(Kind::Data, data), || {
            // every process starts from a matching of its own choice
            let ends: RefCell<Vec<Option<f64>>> = RefCell::new(vec![None; size]);
            let r = run(size, false, |rank| {
                let universe = mpi::initialize().unwrap();
                let world = universe.world();
                let root = world.process_at_rank(0);
                let all = perfect_matchings(&(0..n).collect::<Vec<_>>());
                let mut mine = all[mcrt::choose(Kind::Data, all.len())].clone();
                ends.borrow_mut()[rank] = Some(matching_cost(n, w, &mine));
                if rank != 0 {
                    let mut tries = 0;
                    bootstrap_mpi_matching_calc(&root, &mut [], rank as i32, &mut tries, &m);
                }
                // no rounds: nothing is improved, only collected
                mpi_improve_matching(&m, &mut mine, 0, world);
                mine
            });
            let judge = |r: Vec<Vec<[usize; 2]>>| {
                let best = ends.borrow().iter().flatten().fold(f64::INFINITY, |a, b| a.min(*b));
                for (k, x) in r.iter().enumerate() {
                    if *x != r[0] {
                        return Err(format!("process 0 has {:?}, process {k} {x:?}", r[0]));
                    }
                }
                if !is_perfect_matching(&(0..n).collect::<Vec<_>>(), &r[0]) || !close(matching_cost(n, w, &r[0]), best) {
                    return Err(format!("kept {:?}, the processes had matchings of cost {:?}", r[0], ends.borrow()));
                }
                Ok(())
            };
            r.and_then(judge).map_err(|e| format!("collecting matchings, {size} processes: {e}"))
        });
        c.explored("best-kept", &e);
    }
}
fn even_sets(n: usize, size: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n)
        .filter(|m| m.count_ones() as usize == size)
        .map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect())
        .collect()
}

fn main() {
    let mut s = Spec::new("C14", Level::ModelChecking);
    s.rule = "instances: all weightings over small alphabets, renumbered structured instances, residue families; every number               of processes from one to more than there are cities, buffered and synchronous sends, every order in which a               reduction can combine the contributions; Christofides and the matching step under every outcome of every               process' shuffles (merging executions in which a process reaches the same edge list) or a bounded number of               deviations from the identity; with the best start or special city placed at every city of larger instances"
        .into();
    s.assumptions = vec![
        "costs finite; metric instances for Christofides; equality of sums up to relative 1e-9".into(),
        "the C MPI library below the mpi crate follows the MPI standard".into(),
    ];
    s.case_cpu_s = 300;
    let t = mcrt::drv::tier() == Tier::Thorough;
    let all = u32::MAX;
    let mut p = Plan { chunk: 64, ..Plan::default() };
    for a in [BIN, INT3, FRAC, BIGM, NEAR, HUGE, TINY] {
        p.full.extend([(1, a), (2, a), (3, a)]);
    }
    p.full.extend([(4, BIN), (4, INT3), (4, FRAC)]);
    p.add(&mut s, "small ", Rc::new(move |c, _, n, w| {
        no_stderr();
        neighbours(c, n, w, &[1, 2, 3, 4], all);
        neighbours(c, n, w, &[5, 6, 7], 1);
        if n >= 2 {
            bounds(c, n, w, &[1, 2, 3, 4, 5, 6, 7]);
        }
    }));
    let mut p = Plan { chunk: 128, ..Plan::default() };
    p.full = vec![(5, TWO), (5, BIN)];
    p.relabel = vec![5];
    p.residues = vec![(5, 240), (6, 240), (7, 120), (9, 24), (12, 12)];
    p.plain = vec![5, 6, 7, 8, 9, 11];
    if t {
        p.full.extend([(5, INT3), (5, NEAR)]);
        p.relabel.push(6);
    }
    p.add(&mut s, "medium ", Rc::new(move |c, _, n, w| {
        no_stderr();
        neighbours(c, n, w, &[1, 2, 3, 4, 5, n - 1, n, n + 1, n + 3], if t { 2 } else { 0 });
        bounds(c, n, w, &[1, 2, 3, n - 1, n, n + 1]);
    }));
    // Christofides and its matching
    let mut p = Plan { metric: true, chunk: 8, ..Plan::default() };
    p.full = vec![(2, TWO), (3, TWO), (3, MET3), (2, BIN), (3, BIN), (4, TWO)];
    if t {
        p.full.extend([(4, MET3), (4, METF)]);
    }
    p.add(&mut s, "christofides ", Rc::new(move |c, _, n, w| {
        no_stderr();
        christo(c, n, w, &[1, 2], &EAGER, all, u64::MAX);
        christo(c, n, w, &[3, 4], &EAGER, if n <= 3 { all } else if t { 3 } else { 2 }, u64::MAX);
    }));
    let mut p = Plan { metric: true, chunk: 8, ..Plan::default() };
    p.plain = vec![4, 5, 6, 7, 8, 9];
    p.residues = vec![(5, 60), (6, 24), (7, 24), (8, 12)];
    if t {
        p.residues.extend([(9, 12), (10, 12), (12, 6)]);
    }
    p.add(&mut s, "christofides-larger ", Rc::new(move |c, _, n, w| {
        no_stderr();
        christo(c, n, w, &[1, 2, 3, 4, n + 2], &EAGER, 0, u64::MAX);
        christo(c, n, w, &[2, 3], &[false], 1, u64::MAX);
        if n == 4 {
            christo(c, n, w, &[3], &[false], if t { all } else { 4 }, u64::MAX);
        }
        if t && n <= 6 {
            christo(c, n, w, &[3], &[false], 2, 2_000_000);
        }
    }));
    let mut p = Plan { chunk: 4, ..Plan::default() };
    p.full = vec![(2, INT3), (3, INT3)];
    p.plain = vec![4];
    p.residues = vec![(4, 24)];
    if t {
        p.full.push((4, BIN));
    }
    p.add(&mut s, "matching ", Rc::new(move |c, _, n, w| {
        no_stderr();
        if n == 4 || n == 2 {
            best_kept(c, n, w, &[1, 2, 3, 4], all);
        }
        for k in [2, 4] {
            for vs in even_sets(n, k) {
                for tries in 0..3 {
                    matching(c, n, w, &vs, tries, &[1, 2], &[false], all, u64::MAX);
                    matching(c, n, w, &vs, tries, &[2, 3, 4], &EAGER, if k == 2 { all } else { 2 }, u64::MAX);
                }
            }
        }
    }));
    let mut p = Plan { chunk: 4, ..Plan::default() };
    p.plain = vec![6, 8];
    p.residues = vec![(6, 24)];
    p.add(&mut s, "matching-larger ", Rc::new(move |c, _, n, w| {
        no_stderr();
        if n == 6 {
            best_kept(c, n, w, &[2, 3], all);
            best_kept(c, n, w, &[4, 6], 2);
        }
        let vs: Vec<usize> = (0..n).collect();
        for tries in [0, 1, 2, 5] {
            matching(c, n, w, &vs, tries, &[2, 3, 5], &[false], if tries == 1 || t { 2 } else { 1 }, u64::MAX);
        }
    }));
    // sizes beyond those of machine words and bytes
    let mut p = Plan { chunk: 1, ..Plan::default() };
    p.residues = vec![(16, 2), (33, 2), (65, 2), (130, 2), (257, 1)];
    p.add(&mut s, "large ", Rc::new(move |c, _, n, w| {
        no_stderr();
        neighbours(c, n, w, &[2, 3, 5], 0);
        if n <= 130 {
            bounds(c, n, w, &[2, 3, 5]);
        }
        let vs: Vec<usize> = (0..n & !1).collect();
        matching(c, n, w, &vs, 2, &[2, 3], &[false], 0, u64::MAX);
    }));
    let mut p = Plan { metric: true, chunk: 1, ..Plan::default() };
    p.residues = vec![(16, 24), (33, 12), (65, 12), (130, 6)];
    p.add(&mut s, "large metric ", Rc::new(move |c, _, n, w| {
        no_stderr();
        christo(c, n, w, &[2, 3], &[false], 0, u64::MAX);
    }));
    // one start (special city) alone is the best one, at every border of the usual ways to divide the cities
    for n in [5usize, 8, 12, 17, 33, 65, 130] {
        s.unit(format!("placed-n{n}"), move |c| {
            no_stderr();
            let w = scattered(n, 0);
            let m = na(n, &w);
            let starts: Vec<f64> = (0..n).map(|s| -single_nearest_neighbour(&m, s).0).collect();
            let trees: Vec<f64> = (0..n).map(|v| one_tree_weight(n, &w, v)).collect();
            for at in borders(n) {
                for (what, v) in [("start", &starts), ("special city", &trees)] {
                    let Some(best) = unique_max(v) else { continue };
                    let w = exchanged(n, &w, best, at);
                    c.begin(&format!("placed: best {what}"), &[n as f64, at as f64]);
                    mcrt::drv::distinct(hash_instance(n, &w));
                    if what == "start" {
                        neighbours(c, n, &w, &[2, 3, 4, 5, 7], 0);
                    } else {
                        bounds(c, n, &w, &[2, 3, 4, 5, 7]);
                    }
                }
            }
        });
    }
    mcrt::drv::main(s)
}
