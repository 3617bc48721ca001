//! C07: spanning trees.
use hx::*;
use mcrt::choice::{explore, Kind, Limits};
use std::rc::Rc;
use walky::computation_mode::*;
use walky::datastructures::Graph;
use walky::mst::*;

fn check(c: &mut Ctx, n: usize, w: &[f64], subsets: bool, steals: u32) {
    let m = na(n, w);
    let sets: Vec<Vec<usize>> = if subsets {
        (0..1usize << n)
            .map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect())
            .collect()
    } else if n <= 24 {
        (0..n).map(|i| vec![i]).chain([vec![]]).collect()
    } else {
        // none, single ones around the borders of machine words, halves, all but two
        let mut sets = vec![vec![], vec![0], vec![n - 1], vec![31], vec![n / 2]];
        sets.extend([63, 64, 127, 128].into_iter().filter(|&v| v < n).map(|v| vec![v]));
        sets.push((0..n / 2).collect());
        sets.push((n / 2..n).collect());
        sets.push((0..n).filter(|v| v % 2 == 0).collect());
        sets.push((0..n).filter(|v| v % 33 != 1).collect());
        sets
    };
    for (k, mut ex) in sets.into_iter().enumerate() {
        if k % 3 == 1 {
            ex.reverse();
        }
        for (name, f) in [
            (
                "sequential",
                prim_with_excluded_node_single_threaded as fn(&_, &[usize]) -> Graph,
            ),
            ("priority-queue", prim_with_excluded_node_priority_queue),
        ] {
            c.count("trees", 1);
            match guard(|| f(&m, &ex)).and_then(|g| judge_tree(n, w, &ex, &g)) {
                Ok(()) => {}
                Err(e) => c.fail(name, format!("{name}, excluding {ex:?}: {e}")),
            }
        }
        let e = explore(Limits::all().with(Kind::Steal, steals), || {
            let g = guard(|| prim_with_excluded_node_multi_threaded(&m, &ex))?;
            judge_tree(n, w, &ex, &g).map_err(|e| format!("multi-threaded, excluding {ex:?}: {e}"))
        });
        c.count("trees", e.execs);
        c.explored("multi-threaded", &e);
    }
    for par in [false, true] {
        let e = explore(
            Limits::all().with(Kind::Steal, if par { steals } else { 0 }),
            || {
                let g = guard(|| {
                    if par {
                        prim::<PAR_COMPUTATION>(&m)
                    } else {
                        prim::<SEQ_COMPUTATION>(&m)
                    }
                })?;
                judge_tree(n, w, &[], &g).map_err(|e| format!("prim, parallel={par}: {e}"))
            },
        );
        c.count("trees", e.execs);
        c.explored(if par { "prim-par" } else { "prim-seq" }, &e);
    }
}

fn main() {
    let mut s = Spec::new("C07", Level::ModelChecking);
    s.rule = "every weighting over small alphabets, renumbered structured instances and residue families; for each \
              instance every set of excluded cities and every variant; the multi-threaded variant under every way (within \
              the steal budget) a four-thread pool splits its work; weights compared with Kruskal's algorithm; in a second, \
              instrumented part the pool's tasks are interleaved at every atomic operation within a preemption budget, \
              and all memory accesses are checked for happens-before order"
        .into();
    s.assumptions = vec!["costs finite; equality of sums up to relative 1e-9".into()];
    let t = mcrt::drv::tier() == Tier::Thorough;
    let mut p = Plan {
        chunk: 256,
        ..Plan::default()
    };
    for a in [BIN, INT3, INT4, FRAC, TINY, HUGE, BIGM, MIX, NEAR] {
        p.full.extend([(2, a), (3, a), (4, a)]);
    }
    p.add(
        &mut s,
        "small ",
        Rc::new(move |c, _, n, w| check(c, n, w, true, if t { 2 } else { 1 })),
    );
    let mut p = Plan {
        chunk: 1024,
        ..Plan::default()
    };
    p.full = vec![(5, INT3), (5, FRAC)];
    p.relabel = vec![5];
    p.plain = vec![6, 7, 8];
    p.residues = vec![(6, 240), (7, 120), (8, 60)];
    if t {
        p.full
            .extend([(5, BIGM), (5, MIX), (5, NEAR), (6, BIN), (5, INT4)]);
        p.relabel.push(6);
        p.residues.extend([(9, 120)]);
    }
    p.add(
        &mut s,
        "subsets ",
        Rc::new(|c, _, n, w| check(c, n, w, true, 0)),
    );
    let mut p = Plan {
        chunk: 1024,
        ..Plan::default()
    };
    p.plain = vec![10, 12, 16, 20, 33, 64, 65];
    p.full = vec![(6, BIN)];
    p.residues = vec![(10, 60), (16, 24), (24, 6), (33, 6), (65, 6), (100, 3), (130, 3), (257, 1)];
    p.relabel = vec![6];
    if t {
        p.full = vec![(6, INT3), (7, BIN)];
        p.relabel.push(7);
        p.residues.extend([(40, 6), (64, 3), (300, 1)]);
    }
    p.add(
        &mut s,
        "large ",
        Rc::new(|c, _, n, w| check(c, n, w, false, if (10..=24).contains(&n) { 1 } else { 0 })),
    );
    mcrt::drv::main(s)
}
