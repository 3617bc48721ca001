//! C03: the multi-threaded exact solver under every thread count; workers one after another in every order,
//! and interleaved at every lock operation.
use hx::*;
use mcrt::choice::{explore, Kind, Limits};
use std::rc::Rc;
use walky::solvers::exact::threaded_solver;

fn check(c: &mut Ctx, n: usize, w: &[f64], cpus: &[usize], orders: u32) {
    let opt = optimum(n, w);
    let m = na(n, w);
    for &k in cpus {
        mcrt::interpose::set_cpus(k);
        let real = std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(0);
        if real != k {
            c.count("thread_count_not_imposed", 1);
        }
        let e = explore(Limits::all().with(Kind::Steal, orders), || {
            let r = guard(|| threaded_solver(&m))?;
            check_exact(n, w, opt, &r).map_err(|(_, m)| format!("{k} hardware threads: {m}"))
        });
        c.explored("threaded", &e);
    }
    mcrt::interpose::set_cpus(0);
}

/// preemptions at every atomic operation and futex call up to a bound, every choice where a thread blocks
fn interleave(c: &mut Ctx, n: usize, w: &[f64], cpus: usize, pool: usize, preempt: u32, by_value: bool) {
    let opt = optimum(n, w);
    let m = na(n, w);
    mcrt::interpose::set_cpus(cpus);
    let mut acc = 0;
    let mut pts = 0;
    let mut seen = std::collections::BTreeSet::new();
    let e = explore(Limits::all().with(Kind::Preempt, preempt).cap(if by_value { 4_000_000 } else { 400_000 }), || {
        let r = if by_value {
            h_par::scheduled_by_value(pool, || threaded_solver(&m))
        } else {
            h_par::scheduled(pool, || threaded_solver(&m))
        }?;
        acc = acc.max(mcrt::tsan::accesses());
        pts = pts.max(mcrt::sched::s().points);
        seen.insert(r.1.clone());
        check_exact(n, w, opt, &r)
            .map_err(|(_, m)| format!("{cpus} hardware threads, {pool} pool threads: {m}"))
    });
    mcrt::interpose::set_cpus(0);
    c.count("tours_seen", seen.len() as u64);
    c.count("accesses_checked_in_longest", acc);
    c.count("scheduling_points_in_longest", pts);
    c.explored("threaded", &e);
}

pub fn main() {
    let mut s = Spec::new("C03", Level::ModelChecking);
    s.unit_cpu_s = 300;
    s.rule = "instances: all weightings over small alphabets, renumbered structured instances, residue families; for each \
              every number of hardware threads from one to more than there are cities; workers in every order (small \
              instances) or with a bounded number of deviations from the spawn order; three to five cities with two to \
              four interleaved workers: every schedule up to a bound of preemptions at atomic operations, with race \
              detection, and deeper (three cities without bound) with states merged when all memory is the same"
        .into();
    s.assumptions = vec!["costs finite; equality of sums up to relative 1e-9".into()];
    let t = mcrt::drv::tier() == Tier::Thorough;
    let mut p = Plan {
        chunk: 256,
        ..Plan::default()
    };
    for a in [BIN, INT3, FRAC, BIGM, MIX, NEAR, HUGE] {
        p.full.extend([(2, a), (3, a)]);
    }
    p.full
        .extend([(4, INT3), (4, FRAC), (4, BIGM), (4, NEAR), (4, BIN)]);
    p.relabel = vec![4];
    p.add(
        &mut s,
        "small ",
        Rc::new(|c, _, n, w| check(c, n, w, &[1, 2, 3, 4, 6], u32::MAX)),
    );
    let mut p = Plan {
        chunk: 32,
        ..Plan::default()
    };
    p.full = vec![(5, TWO)];
    p.relabel = vec![5];
    p.residues = vec![(5, 240)];
    if t {
        p.full.extend([(5, BIGM), (5, INT3)]);
    }
    p.add(
        &mut s,
        "five ",
        Rc::new(|c, _, n, w| check(c, n, w, &[1, 2, 3, 4, 5], 1)),
    );
    let mut p = Plan {
        chunk: 32,
        ..Plan::default()
    };
    p.full = vec![(5, BIN)];
    p.relabel = vec![6];
    p.residues = vec![(5, 960), (6, 240), (7, 60), (8, 8)];
    p.plain = vec![6, 7, 8];
    if t {
        p.full.extend([(5, INT3), (6, BIN)]);
        p.residues.extend([(8, 120), (9, 24)]);
        p.plain.push(9);
    }
    p.add(
        &mut s,
        "order ",
        Rc::new(|c, _, n, w| {
            let all: Vec<usize> = (1..n).collect();
            check(c, n, w, &all, 0)
        }),
    );
    // interleavings with happens-before order and race detection: cities, hardware threads, pool threads, preemptions
    let mut cfg = vec![(3, 2, 2, 2), (3, 2, 1, 2), (3, 3, 3, 1), (4, 2, 2, 1), (4, 3, 3, 0), (5, 2, 2, 0), (5, 4, 4, 0)];
    if t {
        cfg.extend([(3, 2, 2, 3), (3, 3, 3, 2), (4, 2, 2, 2), (4, 3, 3, 1), (4, 3, 2, 1), (5, 2, 2, 1), (5, 3, 3, 0)]);
    }
    for (n, cpus, pool, b) in cfg {
        let mut p = Plan {
            chunk: 8,
            ..Plan::default()
        };
        p.plain = vec![n];
        if n == 3 {
            p.full = vec![(3, TWO)];
        }
        let name = format!("interleaved {cpus} workers {pool} threads, up to {b} preemptions, ");
        p.add(
            &mut s,
            Box::leak(name.into_boxed_str()),
            Rc::new(move |c, _, n, w| interleave(c, n, w, cpus, pool, b, false)),
        );
    }
    // deeper, states told apart by the contents of memory: the three tours of four cities cost different amounts, in
    // every order; three and five cities likewise with different costs
    let orders = [[2., 4., 1.], [4., 1., 2.], [1., 4., 2.], [4., 2., 1.], [1., 2., 4.], [2., 1., 4.]];
    let all = u32::MAX;
    let mut deep = vec![(4, 2, 2, if t { all } else { 4 }, if t { 6 } else { 4 })];
    deep.extend([(4, 3, 3, if t { 3 } else { 1 }, 2), (4, 3, 2, if t { 4 } else { 2 }, 2)]);
    deep.extend([(3, 2, 2, all, 2), (3, 2, 1, all, 2), (3, 3, 3, if t { all } else { 3 }, 1)]);
    deep.extend([(5, 2, 2, if t { 2 } else { 1 }, 2), (5, 4, 4, if t { 1 } else { 0 }, 2)]);
    for (n, cpus, pool, b, k) in deep {
        for o in 0..k {
            let m = orders[o];
            let bound = if b == all { "any number of".into() } else { format!("up to {b}") };
            s.unit(format!("deep {n} cities, {cpus} workers, {pool} threads, {bound} preemptions, {o}"), move |c| {
                let w = match n {
                    4 => upper(4, |i, j| m[[0, 1, 2, 2, 1, 0][pair(i, j)]] / 2.0),
                    _ => upper(n, |i, j| ((i * 7 + j * 3 + o * 5 + i * j) % 11) as f64 + m[(i + j) % 3]),
                };
                c.begin("deep", &w);
                interleave(c, n, &w, cpus, pool, b, true);
            });
        }
    }
    mcrt::drv::main(s)
}

/// number of the pair i < j of four cities
fn pair(i: usize, j: usize) -> usize {
    [[9, 0, 1, 2], [9, 9, 3, 4], [9, 9, 9, 5]][i][j]
}
