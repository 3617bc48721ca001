//! C23: memory accesses of every mode stay inside what is allocated.
use h_par::scheduled;
use hx::*;
use mcrt::choice::{explore, merge_shuffles, Kind, Limits};
use mpi::topology::{Communicator, SystemCommunicator};
use mpi_sys::mc::run;
use std::rc::Rc;
use walky::computation_mode::*;
use walky::datastructures::{AdjacencyMatrix, Graph, NAMatrix, VecMatrix};
use walky::mst::*;
use walky::one_tree::*;
use walky::solvers::approximate::christofides::*;
use walky::solvers::approximate::matching::*;
use walky::solvers::approximate::nearest_neighbour::*;
use walky::solvers::exact::*;

/// only memory errors matter here
fn memory<R>(r: Result<R, String>) -> Result<(), String> {
    drop(r);
    match mcrt::take_memory_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
fn done(c: &mut Ctx, key: &str, e: &mcrt::Explored) {
    c.count("accesses_checked", mcrt::tsan::take_checked());
    c.explored(key, e);
}
/// one execution, nothing to choose (random draws take their first outcome)
fn once<R>(c: &mut Ctx, key: &str, f: impl Fn() -> R) {
    let e = explore(Limits::all().with(Kind::Data, 0), || match guard(&f) {
        Err(e) if e.starts_with("memory: ") => Err(e),
        r => memory(r),
    });
    done(c, key, &e);
}
/// in a pool: every split within the budget
fn par<R>(c: &mut Ctx, key: &str, pool: usize, steals: u32, preempt: u32, data: u32, f: impl Fn() -> R) {
    let l = Limits::all().with(Kind::Steal, steals).with(Kind::Preempt, preempt).with(Kind::Data, data).cap(20_000);
    let e = explore(l, || match scheduled(pool, &f) {
        Err(e) if e.starts_with("memory: ") => Err(e),
        r => memory(r),
    });
    done(c, key, &e);
}
fn ranks<R>(c: &mut Ctx, key: &str, size: usize, sync: bool, data: u32, msg: u32, f: impl Fn(usize) -> R) {
    merge_shuffles(true);
    let l = Limits::all().with(Kind::Data, data).with(Kind::Msg, msg).with(Kind::Preempt, 0).cap(20_000);
    let e = explore(l, || {
        let r = guard(|| run(size, sync, &f));
        match r {
            Err(e) if e.starts_with("memory: ") => Err(e),
            r => memory(r),
        }
    });
    merge_shuffles(false);
    done(c, key, &e);
}

/// pairs up the vertices of odd degree: neighbours, halves or ends, either way round
fn given_matching<const STYLE: usize>(tree: &Graph, _: &NAMatrix) -> Vec<[usize; 2]> {
    let odd: Vec<usize> = tree.iter().enumerate().filter(|(_, v)| v.iter().count() % 2 == 1).map(|(i, _)| i).collect();
    let h = odd.len() / 2;
    (0..h)
        .map(|i| match STYLE % 3 {
            0 => [odd[2 * i], odd[2 * i + 1]],
            1 => [odd[i], odd[h + i]],
            _ => [odd[i], odd[2 * h - 1 - i]],
        })
        .map(|[a, b]| if STYLE < 3 { [a, b] } else { [b, a] })
        .collect()
}

fn sequential(c: &mut Ctx, n: usize, w: &[f64], metric: bool) {
    let (m, v) = (na(n, w), vm(n, w));
    if n <= 6 {
        once(c, "v0", || naive_solver::<NAMatrix>(&m));
        once(c, "v1", || first_improved_solver::<NAMatrix>(&m));
        once(c, "v0-vec", || naive_solver::<VecMatrix>(&v));
    }
    if n <= 7 {
        once(c, "v2", || second_improved_solver::<NAMatrix>(&m));
        once(c, "v3", || third_improved_solver::<NAMatrix>(&m));
        once(c, "v3-vec", || third_improved_solver::<VecMatrix>(&v));
        once(c, "v4", || fourth_improved_solver::<NAMatrix>(&m));
        once(c, "v5", || fifth_improved_solver(&m));
        once(c, "v6", || sixth_improved_solver(&m));
    }
    once(c, "nearest-neighbour", || nearest_neighbour::<SEQ_COMPUTATION>(&m));
    once(c, "mst", || prim::<SEQ_COMPUTATION>(&m));
    for x in [vec![], vec![0], vec![n - 1]] {
        once(c, "mst", || prim_with_excluded_node_single_threaded(&m, &x));
        once(c, "mst-queue", || prim_with_excluded_node_priority_queue(&m, &x));
    }
    if n >= 2 && n <= 70 {
        once(c, "one-tree", || one_tree_lower_bound::<SEQ_COMPUTATION>(&m));
    }
    for k in [n & !1, n / 2 & !1] {
        if k > 0 {
            let vs: Vec<usize> = (n - k..n).collect();
            once(c, "matching", || approx_min_cost_matching::<SEQ_COMPUTATION>(&m, vs.clone(), 3));
        }
    }
    if metric && n >= 2 {
        once(c, "christofides", || christofides::<SEQ_COMPUTATION>(&m));
    }
}
fn parallel(c: &mut Ctx, n: usize, w: &[f64], metric: bool, pools: &[usize], steals: u32, preempt: u32) {
    let m = na(n, w);
    let data = (n <= 5) as u32;
    for &p in pools {
        for x in [vec![], vec![0], vec![n - 1]] {
            par(c, "mst-par", p, steals, preempt, 0, || prim_with_excluded_node_multi_threaded(&m, &x));
        }
        if n >= 2 {
            if n <= 33 {
                par(c, "one-tree-par", p, steals, preempt, 0, || one_tree_lower_bound::<PAR_COMPUTATION>(&m));
            }
            if n <= 6 {
                par(c, "threaded", p, 0, 0, 0, || threaded_solver(&m));
            }
            if metric {
                par(c, "christofides-par", p, steals, preempt, data, || christofides::<PAR_COMPUTATION>(&m));
                let given: [fn(&Graph, &NAMatrix) -> Vec<[usize; 2]>; 6] =
                    [given_matching::<0>, given_matching::<1>, given_matching::<2>, given_matching::<3>, given_matching::<4>, given_matching::<5>];
                for g in given {
                    par(c, "given-matching-par", p, steals, 0, 0, || christofides_generic::<PAR_COMPUTATION>(&m, g));
                }
            }
        }
        for k in [1, n] {
            par(c, "nearest-neighbour-par", p, steals, preempt, data, || n_nearest_neighbour::<PAR_COMPUTATION>(&m, k));
        }
        if n >= 2 {
            let vs: Vec<usize> = (0..n & !1).collect();
            par(c, "matching-par", p, steals, preempt, data, || approx_min_cost_matching::<PAR_COMPUTATION>(&m, vs.clone(), 2));
        }
    }
}
fn points(c: &mut Ctx, n: usize, k: u64) {
    let p: Vec<[f64; 2]> =
        (0..n as u64).map(|i| [((i * i * 7 + i * k + k) % 13) as f64 - 3.0, ((i * (5 + k) + 2) % 11) as f64 / 4.0]).collect();
    c.begin("points", &[n as f64, k as f64]);
    mcrt::drv::distinct(mcrt::fx::mix(n as u64, k));
    once(c, "points", || NAMatrix::from_points(&p));
    for pool in [2, 3] {
        par(c, "points-par", pool, if n < 20 { 3 } else { 1 }, 0, 0, || NAMatrix::par_from_points(&p));
    }
}
/// what the processes other than the root do in the matching
fn worker(rank: usize) -> Vec<[usize; 2]> {
    let world = SystemCommunicator::world();
    let root = world.process_at_rank(0);
    let mut tries = 0;
    let none = na(1, &[]);
    let (mut matching, graph) = bootstrap_mpi_matching_calc(&root, &mut [], rank as i32, &mut tries, &none);
    mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
    matching
}
fn distributed(c: &mut Ctx, n: usize, w: &[f64], metric: bool, sizes: &[usize], data: u32, msg: u32) {
    let m = na(n, w);
    for &size in sizes {
        for sync in [false, true] {
            ranks(c, "nearest-neighbour-mpi", size, sync, 0, msg, |_| nearest_neighbour_mpi(&m).0);
            if n >= 2 && n <= 40 {
                ranks(c, "one-tree-mpi", size, sync, 0, msg, |_| one_tree_lower_bound::<MPI_COMPUTATION>(&m));
            }
            if n >= 2 && n <= if msg > 1 { 6 } else { 5 } && (size <= 3 || n <= 4) {
                let msg = if n <= 4 { msg } else { 0 };
                ranks(c, "static-mpi", size, sync, 0, msg, |_| static_mpi_solver(&m).0);
                if size >= 2 {
                    ranks(c, "dynamic-mpi", size, sync, 0, msg, |_| dynamic_mpi_solver(&m).0);
                }
            }
            for k in [n & !1, n / 2 & !1] {
                if k == 0 {
                    continue;
                }
                let vs: Vec<usize> = (n - k..n).collect();
                ranks(c, "matching-mpi", size, sync, data, msg, |rank| {
                    let _universe = mpi::initialize();
                    if rank == 0 {
                        approx_min_cost_matching::<MPI_COMPUTATION>(&m, vs.clone(), 2)
                    } else {
                        worker(rank)
                    }
                    .len()
                });
            }
            if metric && n >= 2 {
                ranks(c, "christofides-mpi", size, sync, data, msg, |rank| {
                    let _universe = mpi::initialize();
                    if rank == 0 {
                        christofides::<MPI_COMPUTATION>(&m).1.len()
                    } else {
                        worker(rank).len()
                    }
                });
            }
        }
    }
}
fn no_stderr() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            use std::os::fd::{AsRawFd, IntoRawFd};
            extern "C" {
                fn dup2(a: i32, b: i32) -> i32;
            }
            unsafe { dup2(f.as_raw_fd(), 2) };
            let _ = f.into_raw_fd();
        }
    });
}

fn main() {
    mcrt::tsan::watch_memory();
    let mut s = Spec::new("C23", Level::ModelChecking);
    s.only_memory = true;
    s.unit_cpu_s = 60;
    s.rule = "instances over small alphabets, structured ones and residue families with one to 257 cities; every sequential mode, every \
              data-parallel mode in simulated pools under every bounded split of its work, every distributed mode with one to more \
              processes than cities, buffered and synchronous, under bounded message orders; every load and store of walky, nalgebra, \
              rayon, mpi and the standard library, and every buffer handed to the MPI library, checked against what is allocated at \
              that moment (blocks lie apart from each other and are not reused for long)"
        .into();
    s.assumptions = vec![
        "heap memory; accesses inside another live block at least as far away as the block's own size are not told from proper ones".into(),
        "the C MPI library accesses exactly the elements described by count and type".into(),
    ];
    let t = mcrt::drv::tier() == Tier::Thorough;
    let metric = |n: usize, w: &[f64]| hx::metric(n, w);
    let mut p = Plan { chunk: 32, ..Plan::default() };
    for n in 1..=4 {
        p.full.extend([(n, BIN), (n, TWO)]);
    }
    p.plain = vec![2, 3, 4, 5, 6, 7, 8, 9, 12];
    p.residues = vec![(5, 60), (6, 60), (7, 24), (9, 12), (16, 6), (17, 6), (33, 6), (64, 2), (65, 4), (130, 2), (257, 1)];
    if t {
        p.full.extend([(4, INT3), (5, TWO)]);
        p.residues.extend([(8, 240), (10, 60), (12, 60)]);
    }
    p.add(&mut s, "sequential ", Rc::new(move |c, _, n, w| sequential(c, n, w, metric(n, w))));
    let mut p = Plan { chunk: 8, ..Plan::default() };
    p.full = vec![(1, TWO), (2, TWO), (3, TWO), (4, TWO)];
    p.plain = vec![3, 4, 5, 6, 7, 8, 9];
    p.residues = vec![(4, 24), (5, 24), (6, 12), (7, 12), (9, 6)];
    if t {
        p.full.push((4, INT3));
        p.residues.extend([(8, 60), (12, 24)]);
    }
    p.add(&mut s, "pools ", Rc::new(move |c, _, n, w| parallel(c, n, w, metric(n, w), if n < 6 { &[1, 2, 3] } else { &[2, 4] }, if t { 3 } else { 1 }, (n <= 4) as u32)));
    let mut p = Plan { chunk: 1, metric: true, ..Plan::default() };
    p.residues = vec![(16, 24), (17, 24), (33, 12), (65, 12), (130, 12)];
    p.add(&mut s, "pools large ", Rc::new(move |c, _, n, w| parallel(c, n, w, true, &[2, 4], (n < 60 && t) as u32, 0)));
    let mut p = Plan { chunk: 8, ..Plan::default() };
    p.full = vec![(1, TWO), (2, TWO), (3, TWO), (4, BIN)];
    p.plain = vec![3, 4, 5, 6];
    p.residues = vec![(5, 24), (6, 24), (7, 12), (9, 6)];
    if t {
        p.full.push((4, INT3));
        p.residues.extend([(8, 60), (12, 24)]);
    }
    p.add(&mut s, "processes ", Rc::new(move |c, _, n, w| {
        no_stderr();
        distributed(c, n, w, metric(n, w), if n <= 4 { &[1, 2, 3, 4, 6] } else { &[2, 3, 5] }, (n <= 4 || n == 5 && t) as u32, if t { 2 } else { (n <= 5) as u32 });
        if n > 4 {
            distributed(c, n, w, metric(n, w), &[n, n + 1], 0, 0);
        }
    }));
    let mut p = Plan { chunk: 1, metric: true, ..Plan::default() };
    p.residues = vec![(16, 24), (17, 24), (33, 12), (65, 12), (130, 12)];
    p.add(&mut s, "processes large ", Rc::new(move |c, _, n, w| {
        no_stderr();
        distributed(c, n, w, true, &[2, 3, 4], 0, 0);
    }));
    for n in [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 129, 257] {
        for k in 0..2 {
            s.unit(format!("points {n} {k}"), move |c| points(c, n, k));
        }
    }
    for k in [3998usize, 4000, 4002, 8002] {
        s.unit(format!("large matching {k}"), move |c| {
            let mut m = NAMatrix::from_dim(k);
            for i in 0..k {
                for j in 0..k {
                    m[(i, j)] = 1.0 + ((i.abs_diff(j) * 7) % 101) as f64;
                }
            }
            let vs: Vec<usize> = (0..k).collect();
            c.begin("large matching", &[k as f64]);
            mcrt::drv::distinct(k as u64);
            par(c, "matching-par", 2, 1, 0, 0, || approx_min_cost_matching::<PAR_COMPUTATION>(&m, vs.clone(), 2));
        });
    }
    mcrt::drv::main(s)
}
