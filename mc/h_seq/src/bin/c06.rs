//! C06: randomised matching.
use hx::*;
use mcrt::choice::{explore, merge_shuffles, observe_shuffles, Kind, Limits};
use std::cell::RefCell;
use std::rc::Rc;
use walky::computation_mode::*;
use walky::datastructures::NAMatrix;
use walky::solvers::approximate::matching::approx_min_cost_matching;

fn run(m: &NAMatrix, par: bool, vs: &[usize], tries: usize) -> Vec<[usize; 2]> {
    if par {
        approx_min_cost_matching::<PAR_COMPUTATION>(m, vs.to_vec(), tries)
    } else {
        approx_min_cost_matching::<SEQ_COMPUTATION>(m, vs.to_vec(), tries)
    }
}

/// what the shim saw being shuffled between rounds
struct Watch {
    n: usize,
    w: Vec<f64>,
    vs: Vec<usize>,
    last: Option<f64>,
    rounds: u64,
    err: Option<String>,
}
thread_local!(static WATCH: RefCell<Option<Watch>> = const { RefCell::new(None) });
fn see(b: &[u8], size: usize) {
    if size != 16 {
        return;
    }
    WATCH.with(|x| {
        let mut x = x.borrow_mut();
        let Some(x) = x.as_mut() else { return };
        let m: Vec<[usize; 2]> = b
            .chunks_exact(16)
            .map(|c| {
                [
                    usize::from_ne_bytes(c[..8].try_into().unwrap()),
                    usize::from_ne_bytes(c[8..].try_into().unwrap()),
                ]
            })
            .collect();
        if m.iter().flatten().any(|&v| v >= x.n) || !is_perfect_matching(&x.vs, &m) {
            return; // not the list of edges (judged at the end)
        }
        x.step(&m);
    })
}
impl Watch {
    fn step(&mut self, m: &[[usize; 2]]) {
        let c = matching_cost(self.n, &self.w, m);
        self.rounds += 1;
        if let Some(l) = self.last {
            if !leq(c, l) && self.err.is_none() {
                self.err = Some(format!(
                    "an improvement round raised the total from {l} to {c} (now {m:?})"
                ));
            }
        }
        self.last = Some(c);
    }
}

fn check(
    c: &mut Ctx,
    n: usize,
    w: &[f64],
    vs: &[usize],
    rounds: usize,
    par: bool,
    merge: bool,
    steals: u32,
) {
    let m = na(n, w);
    let best = if vs.len() <= 12 { min_matching(n, w, vs) } else { 0.0 };
    let mut worst_before = f64::INFINITY;
    for tries in 0..=rounds {
        merge_shuffles(merge);
        observe_shuffles(Some(Box::new(see)));
        let mut worst = f64::NEG_INFINITY;
        let mut seen = 0;
        let e = explore(Limits::all().with(Kind::Steal, steals), || {
            WATCH.with(|x| {
                *x.borrow_mut() = Some(Watch {
                    n,
                    w: w.to_vec(),
                    vs: vs.to_vec(),
                    last: None,
                    rounds: 0,
                    err: None,
                })
            });
            let r = guard(|| run(&m, par, vs, tries))?;
            if !is_perfect_matching(vs, &r) {
                return Err(format!("vertices {vs:?}, {tries} rounds: {r:?} does not match every vertex exactly once"));
            }
            let watch = WATCH.with(|x| x.borrow_mut().take().unwrap());
            let mut watch = watch;
            if watch.rounds > 0 {
                watch.step(&r);
            }
            seen += watch.rounds;
            if let Some(e) = watch.err {
                return Err(e);
            }
            let cost = matching_cost(n, w, &r);
            worst = worst.max(cost);
            if vs.len() == 4 && tries >= 1 && !close(cost, best) {
                return Err(format!(
                    "four vertices {vs:?}, {tries} rounds: {r:?} costs {cost}, minimum {best}"
                ));
            }
            if vs.len() == 2 && !close(cost, best) {
                return Err(format!("two vertices: {r:?} costs {cost}, expected {best}"));
            }
            Ok(())
        });
        observe_shuffles(None);
        merge_shuffles(false);
        c.count("rounds_observed", seen);
        c.explored(if par { "par" } else { "seq" }, &e);
        if !leq(worst, worst_before) {
            c.fail("worse-with-more-rounds", format!("vertices {vs:?}: worst outcome {worst_before} with fewer rounds, {worst} with {tries}"));
        }
        worst_before = worst;
    }
}
fn even_sets(n: usize, size: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n)
        .filter(|m| m.count_ones() as usize == size)
        .map(|m| {
            let mut v: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).collect();
            // not always ascending
            if m % 2 == 1 {
                v.reverse();
            }
            v
        })
        .collect()
}

fn main() {
    let mut s = Spec::new("C06", Level::ModelChecking);
    s.rule = "every even vertex set of small instances (all weightings over small alphabets, structured and residue \
              families, metric or not), every number of improvement rounds up to a bound, every outcome of every shuffle; \
              executions that reach the same set of edges after the same number of rounds are merged (and, separately, \
              not merged for few rounds); the edges being shuffled are observed between rounds"
        .into();
    s.assumptions = vec![
        "a shuffle yields each order of its elements (generator quality is outside the property)".into(),
        "merging: apart from the edge list nothing is carried from round to round (runs without merging confirm it for few rounds)".into(),
    ];
    let t = mcrt::drv::tier() == Tier::Thorough;
    // four vertices: all weightings, whole vertex set
    let mut p = Plan {
        chunk: 256,
        ..Plan::default()
    };
    for a in [BIN, INT3, FRAC, BIGM, NEAR, MIX] {
        p.full.push((4, a));
    }
    p.full.extend([(2, INT3), (3, INT3)]);
    p.add(
        &mut s,
        "four ",
        Rc::new(|c, _, n, w| {
            for size in [0, 2, 4] {
                for vs in even_sets(n, size) {
                    for par in [false, true] {
                        if size == 0 {
                            check(c, n, w, &vs, 2, par, false, 0);
                        } else {
                            check(c, n, w, &vs, if size == 4 { 2 } else { 1 }, par, false, 2);
                            check(c, n, w, &vs, 4, par, true, 0);
                        }
                    }
                }
            }
        }),
    );
    // five cities, four of them
    let mut p = Plan {
        chunk: 64,
        ..Plan::default()
    };
    p.full = vec![(5, TWO)];
    p.residues = vec![(5, 120)];
    p.add(
        &mut s,
        "five ",
        Rc::new(|c, _, n, w| {
            for vs in even_sets(n, 4) {
                for par in [false, true] {
                    check(c, n, w, &vs, 3, par, true, 0);
                }
            }
        }),
    );
    // six vertices
    let mut p = Plan {
        chunk: 4,
        ..Plan::default()
    };
    p.plain = if t { vec![6, 7] } else { vec![6] };
    p.residues = vec![(6, if t { 240 } else { 12 })];
    p.add(
        &mut s,
        "six ",
        Rc::new(move |c, _, n, w| {
            for vs in even_sets(n, 6) {
                for par in [false, true] {
                    check(c, n, w, &vs, if t { 6 } else { 3 }, par, true, 0);
                    check(c, n, w, &vs, if t { 1 } else { 0 }, par, false, 0);
                }
            }
        }),
    );
    // many vertices, one order of the edges, every vertex set of a few shapes
    let mut p = Plan {
        chunk: 64,
        ..Plan::default()
    };
    p.plain = vec![8, 10, 12, 16, 32, 33, 64, 65, 66, 100];
    p.residues = vec![(8, 60), (10, 60), (12, 24), (20, 24), (34, 24), (66, 12), (130, 4), (258, 2), (300, 1)];
    p.add(
        &mut s,
        "many ",
        Rc::new(|c, _, n, w| {
            let m = na(n, w);
            let sets: [Vec<usize>; 4] = [
                (0..n / 2 * 2).collect(),
                (0..n / 2 * 2).rev().collect(),
                (0..n).filter(|v| v % 3 != 1).skip((n - n.div_ceil(3)) % 2).collect(),
                (n / 2 / 2 * 2..n / 2 / 2 * 2 + n / 4 * 2).map(|v| v % n).collect(),
            ];
            for vs in sets {
                if vs.len() % 2 == 1 {
                    continue;
                }
                let mut last = [f64::INFINITY; 2];
                for tries in 0..=4 {
                    let e = explore(Limits::all().with(Kind::Data, 0).with(Kind::Steal, 0), || {
                        for par in [false, true] {
                            let r = guard(|| run(&m, par, &vs, tries))?;
                            if !is_perfect_matching(&vs, &r) {
                                return Err(format!("vertices {vs:?}, {tries} rounds: {r:?} does not match every vertex exactly once"));
                            }
                            let cost = matching_cost(n, w, &r);
                            if !leq(cost, last[par as usize]) {
                                return Err(format!(
                                    "vertices {vs:?}, parallel={par}: {tries} rounds cost {cost}, one round less {}",
                                    last[par as usize]
                                ));
                            }
                            last[par as usize] = cost;
                        }
                        Ok(())
                    });
                    c.explored("many", &e);
                }
            }
        }),
    );
    // enough pairs for the parallel version to split them (fixed order, schedule explored)
    s.unit("split", |c| {
        let n = 8 * if c.quick() { 1001 } else { 2003 };
        let pos: Vec<f64> = (0..n).map(|k| ((k * 7919) % 10007) as f64).collect();
        let m = NAMatrix::from_points(&pos.iter().map(|&x| [x, 0.0]).collect::<Vec<_>>()[..]);
        c.begin("many vertices on a line, one round", &[n as f64]);
        let vs: Vec<usize> = (0..n).collect();
        let e = explore(
            Limits::all().with(Kind::Data, 0).with(Kind::Steal, 1),
            || {
                let a = guard(|| run(&m, false, &vs, 1))?;
                let b = guard(|| run(&m, true, &vs, 1))?;
                for r in [&a, &b] {
                    if !is_perfect_matching(&vs, r) {
                        return Err("not a perfect matching".into());
                    }
                }
                let cost = |r: &[[usize; 2]]| -> f64 {
                    r.iter().map(|e| (pos[e[0]] - pos[e[1]]).abs()).sum()
                };
                let before = guard(|| run(&m, true, &vs, 0))?;
                if !leq(cost(&a), cost(&before)) || !leq(cost(&b), cost(&before)) {
                    return Err(format!(
                        "one round raised the cost: {} -> {} / {}",
                        cost(&before),
                        cost(&a),
                        cost(&b)
                    ));
                }
                Ok(())
            },
        );
        c.explored("split", &e);
    });
    mcrt::drv::main(s)
}
