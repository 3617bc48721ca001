//! C12: distributed exact solver, static split.
use h_mpi::*;
use std::rc::Rc;
use walky::solvers::exact::{static_mpi_solver, static_mpi_solver_generic};

/// prefix 0: the solver the command line uses
fn check(c: &mut Ctx, n: usize, w: &[f64], sizes: &[usize], prefixes: &[usize], sync: &[bool], budget: u32) {
    let opt = optimum(n, w);
    let m = na(n, w);
    for &size in sizes {
        let prefs = if budget == u32::MAX { vec![vec![]] } else { preferences(size) };
        for &k in prefixes {
            for &y in sync {
                for p in &prefs {
                    let e = explore(Limits::all().with(Kind::Msg, budget), || {
                        let r = run_with(size, y, p, |_| {
                            if k == 0 {
                                static_mpi_solver(&m)
                            } else {
                                static_mpi_solver_generic(&m, k)
                            }
                        });
                        r.and_then(|r| all_optimal(n, w, opt, &r)).map_err(|e| {
                            let f = if k == 0 { "static_mpi_solver".into() } else { format!("static_mpi_solver_generic with prefix {k}") };
                            format!("{f}, {size} processes, {}: {e}", mode(y))
                        })
                    });
                    c.explored("static", &e);
                }
            }
        }
    }
}

fn main() {
    let mut s = Spec::new("C12", Level::ModelChecking);
    s.rule = "instances: all weightings over small alphabets, renumbered structured instances, residue families; every number \
              of processes from one to more than there are prefixes, several prefix lengths, buffered and synchronous sends; \
              every order in which the coordinator can match the workers' messages (small cases) or every order with a \
              bounded number of deviations from each fixed preference among the workers and from first-come-first-served"
        .into();
    s.assumptions = vec![
        "costs finite; equality of sums up to relative 1e-9".into(),
        "the C MPI library below the mpi crate follows the MPI standard".into(),
    ];
    s.case_cpu_s = 120;
    let t = mcrt::drv::tier() == Tier::Thorough;
    let all = u32::MAX;
    let mut p = Plan { chunk: 32, ..Plan::default() };
    for a in [BIN, INT3, FRAC, BIGM, NEAR, HUGE, TINY] {
        p.full.extend([(1, a), (2, a), (3, a)]);
    }
    p.add(&mut s, "small ", Rc::new(move |c, _, n, w| {
        check(c, n, w, &[1, 2, 3, 4, 5], &[1], &EAGER, all);
        check(c, n, w, &[1, 2, 3, 4], &[2], &[false], all);
        check(c, n, w, &[1, 2, 3], &[0, 4], &[false], all);
        check(c, n, w, &[3], &[2, 0], &[true], all);
        check(c, n, w, &[6, 7, 9], &[1, 2], &[false], 0);
    }));
    // four cities, every order
    let mut p = Plan { chunk: 16, ..Plan::default() };
    p.full = vec![(4, BIN)];
    p.plain = vec![4];
    p.residues = vec![(4, if t { 240 } else { 48 })];
    if t {
        p.relabel = vec![4];
        p.full.extend([(4, INT3), (4, FRAC), (4, BIGM)]);
    }
    p.add(&mut s, "four ", Rc::new(move |c, _, n, w| {
        check(c, n, w, &[2, 3, 4], &[1], &EAGER, all);
        check(c, n, w, &[5], &[1], &[false], if t { all } else { 3 });
        check(c, n, w, &[6, 7], &[1], &[false], if t { 4 } else { 1 });
    }));
    // four cities and two or three workers, prefixes of two and three cities
    let mut p = Plan { chunk: 2, ..Plan::default() };
    p.plain = vec![4];
    p.residues = vec![(4, 24)];
    if t {
        p.full = vec![(4, BIN), (4, TWO)];
    }
    p.add(&mut s, "orders ", Rc::new(move |c, _, n, w| {
        check(c, n, w, &[3], &[2], &[false], all);
        check(c, n, w, &[3], &[2], &[true], if t { all } else { 2 });
        check(c, n, w, &[4], &[2], &[false], if t { 4 } else { 1 });
        check(c, n, w, &[3], &[0], &[false], if t { 5 } else { 2 });
        check(c, n, w, &[4], &[0], &[false], if t { 3 } else { 1 });
        check(c, n, w, &[2, 5, 9, 13, 25, 66], &[0, 2], &[false], 0);
    }));
    let mut p = Plan { chunk: 64, ..Plan::default() };
    p.full = vec![(4, INT3), (4, FRAC), (4, BIGM), (4, NEAR), (5, TWO)];
    p.relabel = vec![5];
    p.residues = vec![(5, 240), (6, 60)];
    p.plain = vec![5, 6, 7];
    if t {
        p.full.push((5, BIN));
        p.residues.extend([(6, 240), (7, 60)]);
        p.plain.push(8);
    }
    p.add(&mut s, "larger ", Rc::new(|c, _, n, w| {
        check(c, n, w, &[1, 2, 3, 4, 6], &[0], &[false], 0);
        check(c, n, w, &[3], &[0], &[true], 0);
        check(c, n, w, &[2, 3, 5, n + 2], &[1, 2], &[false], 0);
    }));
    let mut p = Plan { chunk: 4, ..Plan::default() };
    p.plain = vec![5, 6];
    p.residues = vec![(5, 48), (6, 12)];
    p.add(&mut s, "deviations ", Rc::new(move |c, _, n, w| {
        check(c, n, w, &[3], &[0], &[false], if t && n == 5 { 2 } else { 1 });
        check(c, n, w, &[3], &[1], &[false], if t { all } else { 3 });
        check(c, n, w, &[4], &[1], &[false], if t { 4 } else { 2 });
        check(c, n, w, &[3], &[2], &[true], if t { 2 } else { 1 });
    }));
    let mut p = Plan { chunk: 1, ..Plan::default() };
    p.residues = vec![(8, 8), (9, 3), (10, 1)];
    if t {
        p.residues = vec![(8, 60), (9, 16), (10, 8), (11, 4), (12, 2)];
    }
    p.add(&mut s, "large ", Rc::new(move |c, _, n, w| {
        check(c, n, w, &[2, 3, 5], &[0], &[false], 0);
    }));
    mcrt::drv::main(s)
}
