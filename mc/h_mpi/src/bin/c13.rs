//! C13: distributed exact solver, dynamic work allocation.
use h_mpi::*;
use std::rc::Rc;
use walky::solvers::exact::dynamic_mpi_solver;

fn check(c: &mut Ctx, n: usize, w: &[f64], sizes: &[usize], sync: &[bool], budget: u32) {
    let opt = optimum(n, w);
    let m = na(n, w);
    for &size in sizes {
        let prefs = if budget == u32::MAX { vec![vec![]] } else { preferences(size) };
        for &y in sync {
            for p in &prefs {
                let e = explore(Limits::all().with(Kind::Msg, budget), || {
                    run_with(size, y, p, |_| dynamic_mpi_solver(&m))
                        .and_then(|r| all_optimal(n, w, opt, &r))
                        .map_err(|e| format!("dynamic_mpi_solver, {size} processes, {}: {e}", mode(y)))
                });
                c.explored("dynamic", &e);
            }
        }
    }
}

fn main() {
    let mut s = Spec::new("C13", Level::ModelChecking);
    s.rule = "instances: all weightings over small alphabets, renumbered structured instances, residue families; every number \
              of processes from one to more than there are prefixes, buffered and synchronous sends; every order in which \
              the coordinator can match the workers' requests (four cities, two workers) or every order with a bounded \
              number of deviations from each fixed preference among the workers and from first-come-first-served"
        .into();
    s.assumptions = vec![
        "costs finite; equality of sums up to relative 1e-9".into(),
        "the C MPI library below the mpi crate follows the MPI standard".into(),
    ];
    s.case_cpu_s = 600;
    let t = mcrt::drv::tier() == Tier::Thorough;
    let all = u32::MAX;
    let mut p = Plan { chunk: 32, ..Plan::default() };
    for a in [BIN, INT3, FRAC, BIGM, NEAR, HUGE, TINY] {
        p.full.extend([(1, a), (2, a), (3, a)]);
    }
    p.add(&mut s, "small ", Rc::new(move |c, _, n, w| check(c, n, w, &[1, 2, 3, 4, 5, 6], &EAGER, all)));
    // four cities, two workers, every order
    let mut p = Plan { chunk: 1, ..Plan::default() };
    p.residues = vec![(4, if t { 120 } else { 6 })];
    p.add(&mut s, "orders ", Rc::new(move |c, _, n, w| {
        check(c, n, w, &[3], &[false], all);
        if t {
            check(c, n, w, &[3], &[true], all);
        }
    }));
    for st in structured(4) {
        let quick = ["line4", "hub4", "plane4", "trap4", "freehub4", "gaps4"].contains(&&st.name[..]);
        if t || quick {
            s.unit(format!("orders {}", st.name), move |c| {
                c.begin(&st.name, &st.w);
                check(c, 4, &st.w, &[3], &[false], all);
            });
        }
    }
    let mut p = Plan { chunk: 16, ..Plan::default() };
    p.full = vec![(4, BIN), (4, TWO)];
    p.relabel = vec![4];
    p.residues = vec![(4, 48), (5, 24), (6, 6)];
    p.plain = vec![5, 6];
    if t {
        p.full.extend([(4, INT3), (4, BIGM)]);
        p.residues.extend([(5, 240), (6, 48)]);
    }
    p.add(&mut s, "deviations ", Rc::new(move |c, _, n, w| {
        let (b2, b3) = match (n, t) {
            (4, false) => (3, 2),
            (4, true) => (5, 3),
            (5, true) => (2, 2),
            _ => (1, 1),
        };
        check(c, n, w, &[3], &[false], b2);
        if n == 4 || t {
            check(c, n, w, &[4], &[false], if n == 4 { b3 } else { 1 });
        }
        check(c, n, w, &[3], &[true], 1);
    }));
    let mut p = Plan { chunk: 64, ..Plan::default() };
    p.full = vec![(4, INT3), (4, FRAC), (4, BIGM), (4, NEAR), (4, HUGE), (4, TINY), (5, TWO)];
    p.relabel = vec![5];
    p.residues = vec![(5, 240), (6, 120), (7, 12)];
    p.plain = vec![4, 5, 6, 7];
    if t {
        p.full.push((5, BIN));
        p.residues.extend([(6, 240), (7, 60)]);
        p.plain.push(8);
    }
    p.add(&mut s, "larger ", Rc::new(|c, _, n, w| {
        check(c, n, w, &[1, 2, 3, 4, 6], &[false], 0);
        check(c, n, w, &[3], &[true], 0);
        if n == 4 {
            // more workers than prefixes
            check(c, n, w, &[14, 17, 18], &[false], 0);
        }
    }));
    let mut p = Plan { chunk: 1, ..Plan::default() };
    p.residues = vec![(8, 8), (9, 3), (10, 1)];
    if t {
        p.residues = vec![(8, 60), (9, 16), (10, 8), (11, 4), (12, 2)];
    }
    p.add(&mut s, "large ", Rc::new(move |c, _, n, w| {
        check(c, n, w, &[2, 3, 5], &[false], 0);
    }));
    mcrt::drv::main(s)
}
