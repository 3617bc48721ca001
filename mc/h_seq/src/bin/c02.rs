//! C02: the pruning exact solvers against brute force / dynamic programming.
use hx::*;
use std::rc::Rc;
use walky::datastructures::{NAMatrix, VecMatrix};
use walky::solvers::exact::*;

fn main() {
    let mut s = Spec::new("C02", Level::Exploration);
    s.rule = "every weighting of the complete graph with n cities over each alphabet of edge costs, every renumbering of \
              structured instances (metric and not), and residue families; each case runs v3..v6 (v3, v4 on both \
              matrix forms) and compares with an independently computed optimum; non-trivial: not all costs equal; \
              distinct: different cost vectors; the bound-remembering solver on many further residue instances (\"cached\" units)"
        .into();
    s.assumptions =
        vec!["sums of tour costs are finite doubles; equality up to relative 1e-9".into()];
    let t = mcrt::drv::tier() == Tier::Thorough;
    let f: Check = Rc::new(|c, _tag, n, w| {
        let opt = optimum(n, w);
        let (a, b) = (na(n, w), vm(n, w));
        type R = (f64, Vec<usize>);
        let runs: [(&str, &dyn Fn() -> R); 6] = [
            ("v3", &|| third_improved_solver::<NAMatrix>(&a)),
            ("v3-vec", &|| third_improved_solver::<VecMatrix>(&b)),
            ("v4", &|| fourth_improved_solver::<NAMatrix>(&a)),
            ("v4-vec", &|| fourth_improved_solver::<VecMatrix>(&b)),
            ("v5", &|| fifth_improved_solver(&a)),
            ("v6", &|| sixth_improved_solver(&a)),
        ];
        for (name, run) in runs {
            c.count("solver_runs", 1);
            match guard(run) {
                Err(e) => c.fail(&format!("{name}-panic"), e),
                Ok(r) => {
                    if let Err((k, m)) = check_exact(n, w, opt, &r) {
                        c.fail(&format!("{name}-{k}"), format!("{name}: {m}"));
                    }
                }
            }
        }
    });
    let mut p = Plan {
        chunk: 2048,
        ..Plan::default()
    };
    for a in [
        BIN, TWO, INT3, INT4, FRAC, FRAC4, TINY, HUGE, BIGM, MIX, NEAR,
    ] {
        for n in 2..=4 {
            p.full.push((n, a));
        }
    }
    p.full.extend([
        (5, BIN),
        (5, INT3),
        (5, FRAC),
        (5, BIGM),
        (5, NEAR),
        (5, MIX),
        (6, BIN),
    ]);
    p.relabel = vec![5, 6];
    p.plain = vec![2, 3, 4, 5, 6, 7, 8, 9];
    p.residues = vec![(6, 720), (7, 720), (8, 360), (9, 30), (10, 4)];
    p.powers = vec![(5, 2100), (6, 2100), (7, 2100), (8, 360), (9, 60)];
    p.graphs = vec![
        (6, 1.0, 2.0, 0.0),
        (6, 0.0, 100.0, 1.0),
        (7, 1.0, 2.0, 0.0),
        (7, 0.0, 100.0, 1.0),
        (7, 1.0, 9.0, 0.0),
        (7, 20.0, 1.0, 1.0),
    ];
    p.hidden = vec![5, 6, 7];
    p.pairs = vec![5, 6];
    p.relabel_named = vec![(7, &["powers", "plane", "trap"])];
    if t {
        p.full.extend([
            (5, INT4),
            (5, FRAC4),
            (5, TINY),
            (5, HUGE),
            (6, TWO),
            (6, BIGM),
            (6, INT3),
        ]);
        p.relabel.push(7);
        p.plain.extend([10, 11]);
        p.powers.extend([(7, 4200), (8, 4200), (9, 2100), (10, 60)]);
        p.graphs.extend([(8, 1.0, 9.0, 0.0), (8, 0.0, 100.0, 1.0)]);
        p.hidden.push(8);
        p.pairs.extend([7, 8]);
        p.relabel_named.clear();
        p.residues
            .extend([(8, 1440), (9, 720), (10, 360), (11, 60)]);
    }
    p.add(&mut s, "", f);
    // bounds remembered by the solver can only be mistaken for one another where there are many sets of cities
    let f: Check = Rc::new(|c, _tag, n, w| {
        c.count("solver_runs", 1);
        match guard(|| sixth_improved_solver(&na(n, w))) {
            Err(e) => c.fail("v6-panic", e),
            Ok(r) => {
                if let Err((k, m)) = check_exact(n, w, optimum(n, w), &r) {
                    c.fail(&format!("v6-{k}"), format!("v6: {m}"));
                }
            }
        }
    });
    let mut p = Plan {
        chunk: 200,
        ..Plan::default()
    };
    p.residues = vec![(8, if t { 40000 } else { 8000 }), (9, if t { 10000 } else { 1600 })];
    p.powers = vec![(8, if t { 40000 } else { 8000 })];
    p.add(&mut s, "cached ", f);
    mcrt::drv::main(s)
}
