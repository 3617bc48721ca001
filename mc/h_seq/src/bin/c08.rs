//! C08: lower bounds.
use hx::*;
use mcrt::choice::{explore, Kind, Limits};
use std::rc::Rc;
use walky::computation_mode::*;
use walky::mst::*;
use walky::one_tree::*;

fn check(c: &mut Ctx, n: usize, w: &[f64], steals: u32) {
    let m = na(n, w);
    let opt = if n <= 13 { Some(optimum(n, w)) } else { None };
    let mut best = f64::NEG_INFINITY;
    for v in 0..n {
        let want = one_tree_weight(n, w, v);
        best = best.max(want);
        match guard(|| one_tree(&m, v)) {
            Err(e) => c.fail("one-tree-panic", format!("special city {v}: {e}")),
            Ok(g) => {
                let got = g.undirected_edge_weight();
                if !close(got, want) {
                    c.fail(
                        "one-tree-weight",
                        format!("special city {v}: weight {got}, minimum one-tree {want}"),
                    );
                }
            }
        }
    }
    let vs: Vec<usize> = (0..n).collect();
    let want_mst = mst(n, w, &vs);
    for (name, f) in [
        ("mst", (|m| prim::<SEQ_COMPUTATION>(m)) as fn(&_) -> _),
        ("mst-par", |m| prim::<PAR_COMPUTATION>(m)),
        ("mst-queue", |m| {
            prim_with_excluded_node_priority_queue(m, &[])
        }),
    ] {
        let e = explore(
            Limits::all().with(Kind::Steal, if name == "mst-par" { steals } else { 0 }),
            || {
                let b = guard(|| f(&m).undirected_edge_weight())?;
                if let Some(o) = opt {
                    if !leq(b, o) {
                        return Err(format!("{name} bound {b} exceeds the optimum {o}"));
                    }
                }
                if !close(b, want_mst) {
                    return Err(format!(
                        "{name} bound {b}, minimum spanning tree {want_mst}"
                    ));
                }
                Ok(())
            },
        );
        c.explored(name, &e);
    }
    for par in [false, true] {
        let e = explore(
            Limits::all().with(Kind::Steal, if par { steals } else { 0 }),
            || {
                let b = guard(|| {
                    if par {
                        one_tree_lower_bound::<PAR_COMPUTATION>(&m)
                    } else {
                        one_tree_lower_bound::<SEQ_COMPUTATION>(&m)
                    }
                })?;
                if let Some(o) = opt {
                    if !leq(b, o) {
                        return Err(format!("one-tree bound {b} exceeds the optimum {o}"));
                    }
                }
                if !leq(want_mst, b) {
                    return Err(format!(
                        "one-tree bound {b} below the spanning tree {want_mst}"
                    ));
                }
                if !close(b, best) {
                    return Err(format!(
                        "one-tree bound {b} (parallel={par}), maximum over special cities {best}"
                    ));
                }
                Ok(())
            },
        );
        c.explored(if par { "one-tree-par" } else { "one-tree-seq" }, &e);
    }
}

fn main() {
    let mut s = Spec::new("C08", Level::ModelChecking);
    s.rule = "every weighting over small alphabets, renumbered structured instances and residue families; each bound is \
              compared with the optimum (brute force or dynamic programming) and with an independent minimum one-tree / \
              spanning tree; multi-threaded modes under every work split within the steal budget; in a second, \
              instrumented part the pool's tasks are interleaved at every atomic operation within a preemption budget, \
              and all memory accesses are checked for happens-before order; with the best special city placed at every city of larger instances"
        .into();
    s.assumptions = vec!["costs finite; equality of sums up to relative 1e-9".into()];
    let t = mcrt::drv::tier() == Tier::Thorough;
    let mut p = Plan {
        chunk: 512,
        ..Plan::default()
    };
    for a in [
        BIN, TWO, INT3, INT4, FRAC, FRAC4, TINY, HUGE, BIGM, MIX, NEAR,
    ] {
        p.full.extend([(2, a), (3, a), (4, a)]);
    }
    p.add(
        &mut s,
        "small ",
        Rc::new(|c, _, n, w| check(c, n, w, if n <= 3 { 3 } else { 1 })),
    );
    let mut p = Plan {
        chunk: 2048,
        ..Plan::default()
    };
    p.full = vec![
        (5, BIN),
        (5, INT3),
        (5, FRAC),
        (5, BIGM),
        (5, NEAR),
        (6, BIN),
    ];
    p.relabel = vec![5, 6];
    p.residues = vec![(6, 360), (7, 360), (8, 240), (9, 120), (10, 60), (12, 12)];
    p.plain = vec![7, 8, 9, 10, 11, 12, 20, 33, 64, 65];
    p.residues.extend([(20, 12), (33, 6), (65, 4), (100, 2), (130, 1), (257, 1)]);
    if t {
        p.full.extend([(5, INT4), (5, MIX), (6, TWO), (6, INT3)]);
        p.relabel.push(7);
    }
    p.add(&mut s, "medium ", Rc::new(|c, _, n, w| check(c, n, w, 0)));
    let mut p = Plan {
        chunk: 512,
        ..Plan::default()
    };
    p.plain = vec![5, 8, 16, 24];
    p.residues = vec![(5, 24), (7, 12), (11, 12), (16, 12), (32, 6)];
    if t {
        p.plain.extend([10, 12, 40]);
        p.residues.extend([(64, 4)]);
    }
    p.add(
        &mut s,
        "split ",
        Rc::new(move |c, _, n, w| check(c, n, w, if n <= 8 && t { 2 } else { 1 })),
    );
    // one special city alone gives the bound, at every border of the usual ways to divide the cities
    for n in [5usize, 8, 12, 17, 33, 65, 130, 257] {
        for k in 0..2 {
            if n > 200 && k > 0 {
                continue;
            }
            s.unit(format!("placed-n{n}-{k}"), move |c| {
                let w = scattered(n, k);
                let all: Vec<f64> = (0..n).map(|v| one_tree_weight(n, &w, v)).collect();
                let Some(best) = unique_max(&all) else { return };
                let want = all[best];
                for at in borders(n) {
                    let w = exchanged(n, &w, best, at);
                    c.begin("placed: best special city", &[n as f64, k as f64, at as f64]);
                    mcrt::drv::distinct(hash_instance(n, &w));
                    let m = na(n, &w);
                    let e = explore(Limits::all().with(Kind::Steal, 0), || {
                        for (name, b) in [
                            ("sequential", guard(|| one_tree_lower_bound::<SEQ_COMPUTATION>(&m))?),
                            ("multi-threaded", guard(|| one_tree_lower_bound::<PAR_COMPUTATION>(&m))?),
                        ] {
                            if !close(b, want) {
                                return Err(format!("{name} one-tree bound {b}, special city {at} gives {want}"));
                            }
                        }
                        Ok(())
                    });
                    c.explored("placed", &e);
                }
            });
        }
    }
    mcrt::drv::main(s)
}
