//! C04: nearest-neighbour tours.
use hx::*;
use mcrt::choice::{explore, Kind, Limits};
use std::rc::Rc;
use walky::computation_mode::*;
use walky::solvers::approximate::nearest_neighbour::*;

fn check(c: &mut Ctx, n: usize, w: &[f64], max_k: usize, steals: u32) {
    let m = na(n, w);
    let mut single = vec![];
    for s in 0..n {
        match guard(|| single_nearest_neighbour(&m, s)) {
            Err(e) => return c.fail("single-panic", format!("start {s}: {e}")),
            Ok(r) => {
                if let Err(e) = judge_greedy(n, w, &r) {
                    return c.fail("single", format!("start {s}: {e}"));
                }
                if r.1[0] != s {
                    return c.fail(
                        "single-start",
                        format!("asked to start at {s}, got {:?}", r.1),
                    );
                }
                single.push(r.0);
            }
        }
        c.count("single_starts", 1);
    }
    for k in 1..=n {
        if k != n && k > max_k {
            continue;
        }
        for par in [false, true] {
            let lim = Limits::all().with(Kind::Steal, if par { steals } else { 0 });
            let e = explore(lim, || {
                let r = guard(|| {
                    if par {
                        n_nearest_neighbour::<PAR_COMPUTATION>(&m, k)
                    } else {
                        n_nearest_neighbour::<SEQ_COMPUTATION>(&m, k)
                    }
                })?;
                judge_starts(n, w, &single, k, &r)
            });
            c.explored(if par { "par" } else { "seq" }, &e);
        }
    }
    for par in [false, true] {
        let lim = Limits::all()
            .with(Kind::Steal, if par { steals } else { 0 })
            .with(Kind::Data, 1);
        let e = explore(lim, || {
            let r = guard(|| {
                if par {
                    nearest_neighbour::<PAR_COMPUTATION>(&m)
                } else {
                    nearest_neighbour::<SEQ_COMPUTATION>(&m)
                }
            })?;
            judge_starts(n, w, &single, n, &r)
        });
        c.explored(if par { "all-par" } else { "all-seq" }, &e);
    }
}
fn main() {
    let mut s = Spec::new("C04", Level::ModelChecking);
    s.rule = "instances: all weightings over small alphabets, renumbered structured instances, residue families; for each \
              instance every start is run on its own, then every number k of random starts under every outcome of the \
              random order and every way (within the steal budget) a four-thread pool splits the work; executions are \
              runs of the real code, states are nodes of their choice trees; in a second, \
              instrumented part the pool's tasks are interleaved at every atomic operation within a preemption budget, \
              and all memory accesses are checked for happens-before order; with the best start placed at every city of larger instances"
        .into();
    s.assumptions = vec!["costs finite; equality of sums up to relative 1e-9".into()];
    let t = mcrt::drv::tier() == Tier::Thorough;
    let mut p = Plan {
        chunk: 128,
        ..Plan::default()
    };
    for a in [BIN, INT3, FRAC, TINY, HUGE, BIGM, MIX, NEAR] {
        p.full.extend([(2, a), (3, a)]);
    }
    p.full
        .extend([(4, INT3), (4, FRAC), (4, BIGM), (4, NEAR), (4, MIX)]);
    if t {
        p.full.extend([(4, INT4), (4, FRAC4), (4, HUGE), (4, TINY)]);
    }
    p.add(
        &mut s,
        "small ",
        Rc::new(|c, _, n, w| check(c, n, w, n, if n <= 3 { 9 } else { 2 })),
    );
    let mut p = Plan {
        chunk: 40,
        ..Plan::default()
    };
    p.full = vec![(5, TWO)];
    p.residues = vec![(5, 120)];
    p.relabel = vec![5];
    if t {
        p.full.push((5, INT3));
        p.residues[0].1 = 720;
    }
    let st = if t { 2 } else { 1 };
    p.add(
        &mut s,
        "five ",
        Rc::new(move |c, _, n, w| check(c, n, w, n, st)),
    );
    let mut p = Plan {
        chunk: 40,
        ..Plan::default()
    };
    p.residues = if t {
        vec![(6, 240), (7, 24)]
    } else {
        vec![(6, 12)]
    };
    p.plain = if t { vec![6, 7] } else { vec![6] };
    p.add(&mut s, "six ", Rc::new(|c, _, n, w| check(c, n, w, 3, 0)));
    let mut p = Plan {
        chunk: 4096,
        ..Plan::default()
    };
    // larger instances: one order only (any of them tries all starts), all starts on their own
    p.plain = (7..=16).chain([31, 32, 33, 64, 65]).collect();
    p.residues = vec![(8, 240), (9, 240), (12, 60), (20, 24), (33, 12), (65, 6), (100, 3), (130, 2), (257, 2), (300, 1)];
    p.full = vec![(5, INT3), (5, FRAC), (5, NEAR), (5, BIGM), (6, BIN)];
    if t {
        p.residues.extend([(40, 24), (64, 12), (128, 6), (256, 2), (513, 1)]);
        p.full.extend([(6, TWO), (6, INT3)]);
    }
    p.add(
        &mut s,
        "order ",
        Rc::new(|c, _, n, w| {
            let m = na(n, w);
            let mut single = vec![];
            for s in 0..n {
                match guard(|| single_nearest_neighbour(&m, s)) {
                    Err(e) => return c.fail("single-panic", format!("start {s}: {e}")),
                    Ok(r) => {
                        if let Err(e) = judge_greedy(n, w, &r) {
                            return c.fail("single", format!("start {s}: {e}"));
                        }
                        single.push(r.0);
                    }
                }
                c.count("single_starts", 1);
            }
            let e = explore(
                Limits::all().with(Kind::Data, 0).with(Kind::Steal, 0),
                || {
                    let a = guard(|| nearest_neighbour::<SEQ_COMPUTATION>(&m))?;
                    judge_starts(n, w, &single, n, &a)?;
                    let b = guard(|| nearest_neighbour::<PAR_COMPUTATION>(&m))?;
                    judge_starts(n, w, &single, n, &b)
                },
            );
            c.explored("large", &e);
        }),
    );
    // one start alone is the best one, at every border of the usual ways to divide the starts
    for n in [5usize, 8, 12, 17, 33, 65, 130, 257] {
        for k in 0..2 {
            s.unit(format!("placed-n{n}-{k}"), move |c| {
                let w = scattered(n, k);
                let cost = |w: &[f64]| -> Vec<f64> {
                    let m = na(n, w);
                    (0..n).map(|s| guard(|| single_nearest_neighbour(&m, s)).map_or(f64::NAN, |r| r.0)).collect()
                };
                let Some(best) = unique_max(&cost(&w).iter().map(|x| -x).collect::<Vec<_>>()) else { return };
                for at in borders(n) {
                    let w = exchanged(n, &w, best, at);
                    c.begin("placed: best start", &[n as f64, k as f64, at as f64]);
                    mcrt::drv::distinct(hash_instance(n, &w));
                    let (m, single) = (na(n, &w), cost(&w));
                    let e = explore(Limits::all().with(Kind::Data, 0).with(Kind::Steal, 0), || {
                        let a = guard(|| nearest_neighbour::<SEQ_COMPUTATION>(&m))?;
                        judge_starts(n, &w, &single, n, &a)?;
                        let b = guard(|| nearest_neighbour::<PAR_COMPUTATION>(&m))?;
                        judge_starts(n, &w, &single, n, &b)
                    });
                    c.explored("placed", &e);
                }
            });
        }
    }
    mcrt::drv::main(s)
}
