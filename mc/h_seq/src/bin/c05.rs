//! C05: Christofides.
use hx::*;
use mcrt::choice::{choose, explore, merge_shuffles, Kind, Limits};
use std::cell::RefCell;
use std::rc::Rc;
use walky::computation_mode::*;
use walky::datastructures::{Graph, NAMatrix};
use walky::solvers::approximate::christofides::*;

struct Given {
    n: usize,
    w: Vec<f64>,
    /// spanning tree plus matching handed to the algorithm
    total: f64,
    minimum: bool,
    odd: usize,
    /// only minimum matchings and the most expensive ones
    few: bool,
}
thread_local!(static GIVEN: RefCell<Option<Given>> = const { RefCell::new(None) });

/// hands out every perfect matching of the odd vertices of the tree, one per execution
fn any_matching(mst: &Graph, _: &NAMatrix) -> Vec<[usize; 2]> {
    let odd: Vec<usize> = mst
        .iter()
        .enumerate()
        .filter(|(_, v)| v.iter().count() % 2 == 1)
        .map(|(i, _)| i)
        .collect();
    GIVEN.with(|g| {
        let mut g = g.borrow_mut();
        let g = g.as_mut().unwrap();
        let mut all = perfect_matchings(&odd);
        let best = min_matching(g.n, &g.w, &odd);
        if g.few {
            let worst = all
                .iter()
                .map(|m| matching_cost(g.n, &g.w, m))
                .fold(0.0, f64::max);
            all.retain(|m| {
                let c = matching_cost(g.n, &g.w, m);
                close(c, best) || close(c, worst)
            });
            all.truncate(40);
        }
        let mut m = all.swap_remove(choose(Kind::Data, all.len()));
        // the order of edges and of their ends is arbitrary
        match choose(Kind::Data, 2) {
            0 => {}
            _ => {
                m.reverse();
                for e in m.iter_mut() {
                    e.reverse();
                }
            }
        }
        let c = matching_cost(g.n, &g.w, &m);
        let tree: f64 = mst
            .iter()
            .enumerate()
            .map(|(i, v)| {
                v.iter()
                    .filter(|e| i < e.to)
                    .map(|e| wt(g.n, &g.w, i, e.to))
                    .sum::<f64>()
            })
            .sum();
        g.total = tree + c;
        g.minimum = close(c, best);
        g.odd = odd.len();
        m
    })
}

fn generic(c: &mut Ctx, n: usize, w: &[f64], opt: f64, few: bool, steals: u32) {
    let m = na(n, w);
    for par in [false, true] {
        let e = explore(
            Limits::all().with(Kind::Steal, if par { steals } else { 0 }),
            || {
                GIVEN.with(|g| {
                    *g.borrow_mut() = Some(Given {
                        n,
                        w: w.to_vec(),
                        total: f64::NAN,
                        minimum: false,
                        odd: 0,
                        few,
                    })
                });
                let r = guard(|| {
                    if par {
                        christofides_generic::<PAR_COMPUTATION>(&m, any_matching)
                    } else {
                        christofides_generic::<SEQ_COMPUTATION>(&m, any_matching)
                    }
                })?;
                judge_cycle(n, w, opt, &r)?;
                let g = GIVEN.with(|g| g.borrow_mut().take().unwrap());
                if !leq(r.0, g.total) {
                    return Err(format!(
                        "tour {} costs more than spanning tree plus matching {}",
                        r.0, g.total
                    ));
                }
                if g.minimum && !leq(r.0, 1.5 * opt) {
                    return Err(format!(
                        "minimum matching given, tour {} above 1.5 times the optimum {opt}",
                        r.0
                    ));
                }
                Ok(())
            },
        );
        c.explored(
            if par {
                "given-matching-par"
            } else {
                "given-matching-seq"
            },
            &e,
        );
    }
}
fn whole(
    c: &mut Ctx,
    n: usize,
    w: &[f64],
    opt: f64,
    modes: &[bool],
    merge: bool,
    steals: u32,
    cap: u64,
) {
    let m = na(n, w);
    for &par in modes {
        merge_shuffles(merge);
        let e = explore(
            Limits::all()
                .with(Kind::Steal, if par { steals } else { 0 })
                .cap(cap),
            || {
                let r = guard(|| {
                    if par {
                        christofides::<PAR_COMPUTATION>(&m)
                    } else {
                        christofides::<SEQ_COMPUTATION>(&m)
                    }
                })?;
                judge_cycle(n, w, opt, &r)?;
                if n <= 5 && !leq(r.0, 1.5 * opt) {
                    return Err(format!(
                        "{n} cities, tour {} above 1.5 times the optimum {opt}",
                        r.0
                    ));
                }
                Ok(())
            },
        );
        merge_shuffles(false);
        c.explored(if par { "par" } else { "seq" }, &e);
    }
}

fn main() {
    let mut s = Spec::new("C05", Level::ModelChecking);
    s.rule = "metric instances (every weighting over alphabets [x, 2x], renumbered structured metric instances, metric \
              residue families); christofides under every outcome of its shuffles (executions that reach the same edge \
              list after the same round are merged) and work splits within the steal budget; christofides_generic with \
              every perfect matching of the odd vertices handed in; in a second, \
              instrumented part the pool's tasks are interleaved at every atomic operation within a preemption budget, \
              and all memory accesses are checked for happens-before order"
        .into();
    s.assumptions = vec!["exactly metric instances; equality of sums up to relative 1e-9".into()];
    s.case_cpu_s = 120;
    let t = mcrt::drv::tier() == Tier::Thorough;
    let mut p = Plan {
        metric: true,
        chunk: 256,
        ..Plan::default()
    };
    for a in [TWO, MET3, METF, METT, BIN, INT3] {
        p.full.extend([(2, a), (3, a), (4, a)]);
    }
    p.full.push((2, BIGM));
    p.full.push((2, TINY));
    p.add(
        &mut s,
        "small ",
        Rc::new(|c, _, n, w| {
            let opt = optimum(n, w);
            whole(c, n, w, opt, &[false, true], true, 1, u64::MAX);
            generic(c, n, w, opt, false, if n <= 3 { 2 } else { 1 });
        }),
    );
    let mut p = Plan {
        metric: true,
        chunk: 512,
        ..Plan::default()
    };
    p.full = vec![(5, TWO), (5, MET3), (5, METT), (5, BIN)];
    p.relabel = vec![5];
    if t {
        p.full.push((5, METF));
        p.full.push((5, INT3));
    }
    p.add(
        &mut s,
        "five ",
        Rc::new(|c, _, n, w| {
            let opt = optimum(n, w);
            whole(c, n, w, opt, &[false, true], true, 0, u64::MAX);
            generic(c, n, w, opt, false, 0);
        }),
    );
    // every perfect matching given
    let mut p = Plan {
        metric: true,
        chunk: 256,
        ..Plan::default()
    };
    p.full = vec![(6, TWO)];
    p.relabel = vec![6];
    p.plain = vec![6, 7, 8, 9, 10];
    p.residues = vec![(6, 480), (7, 480), (8, 240), (9, 60)];
    if t {
        p.relabel.push(7);
        p.plain.extend([11, 12]);
        p.residues.extend([(10, 60), (11, 24)]);
    }
    p.add(
        &mut s,
        "given ",
        Rc::new(|c, _, n, w| {
            let opt = optimum(n, w);
            generic(c, n, w, opt, n >= 9, 0);
        }),
    );
    let mut p = Plan {
        metric: true,
        chunk: 16,
        ..Plan::default()
    };
    p.plain = vec![5, 6, 7];
    p.residues = vec![(6, 24), (8, 12)];
    p.add(
        &mut s,
        "given-split ",
        Rc::new(move |c, _, n, w| {
            let opt = optimum(n, w);
            generic(c, n, w, opt, true, 1);
        }),
    );
    // the whole algorithm on larger instances: all shuffles of up to six odd vertices
    for n in if t { vec![6usize, 7, 8] } else { vec![6, 7] } {
        for (k, st) in structured(n)
            .into_iter()
            .enumerate()
            .filter(|(_, st)| st.metric)
        {
            let _ = k;
            s.unit(format!("whole-{}", st.name), move |c| {
                c.begin(&st.name, &st.w);
                let opt = optimum(n, &st.w);
                let cap = if c.quick() { 100_000 } else { 20_000_000 };
                let modes: &[bool] = if n == 6 { &[false, true] } else { &[false] };
                whole(c, n, &st.w, opt, modes, true, 0, cap);
            });
        }
    }
    // long runs under one fixed order
    let mut p = Plan {
        metric: true,
        chunk: 4096,
        ..Plan::default()
    };
    p.plain = (6..=14).chain([20, 31, 32, 33, 40, 63, 64, 65, 66, 80]).collect();
    p.residues = vec![(8, 240), (10, 60), (12, 24), (20, 24), (33, 24), (65, 12), (70, 12), (100, 6), (130, 4), (257, 2), (300, 1)];
    p.add(
        &mut s,
        "order ",
        Rc::new(|c, _, n, w| {
            // large instances: the spanning tree stands in for the optimum as a lower bound
            let all: Vec<usize> = (0..n).collect();
            let opt = if n <= 14 { optimum(n, w) } else { mst(n, w, &all) };
            let m = na(n, w);
            let e = explore(
                Limits::all()
                    .with(Kind::Data, 0)
                    .with(Kind::Steal, if n <= 7 { 1 } else { 0 }),
                || {
                    let a = guard(|| christofides::<SEQ_COMPUTATION>(&m))?;
                    judge_cycle(n, w, opt, &a)?;
                    let b = guard(|| christofides::<PAR_COMPUTATION>(&m))?;
                    judge_cycle(n, w, opt, &b)
                },
            );
            c.explored("order", &e);
        }),
    );
    mcrt::drv::main(s)
}
