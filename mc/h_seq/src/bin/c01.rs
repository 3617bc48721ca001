//! C01: the enumerating exact solvers against brute force / dynamic programming.
use hx::*;
use std::rc::Rc;
use walky::datastructures::{NAMatrix, VecMatrix};
use walky::solvers::exact::*;

fn main() {
    let mut s = Spec::new("C01", Level::Exploration);
    s.rule = "every weighting of the complete graph with n cities over each alphabet of edge costs (ties, zeros, \
              fractions, forbidden-edge costs 1e18, costs that differ only beyond single precision), every renumbering of \
              structured instances, and residue families; each case runs v0, v1, v2 on both matrix forms and compares \
              with an independently computed optimum; non-trivial: not all costs equal; distinct: different cost vectors"
        .into();
    s.assumptions =
        vec!["sums of tour costs are finite doubles; equality up to relative 1e-9".into()];
    let t = mcrt::drv::tier() == Tier::Thorough;
    let f: Check = Rc::new(|c, _tag, n, w| {
        let opt = optimum(n, w);
        let (a, b) = (na(n, w), vm(n, w));
        type R = (f64, Vec<usize>);
        let runs: [(&str, &dyn Fn() -> R); 6] = [
            ("v0", &|| naive_solver::<NAMatrix>(&a)),
            ("v0-vec", &|| naive_solver::<VecMatrix>(&b)),
            ("v1", &|| first_improved_solver::<NAMatrix>(&a)),
            ("v1-vec", &|| first_improved_solver::<VecMatrix>(&b)),
            ("v2", &|| second_improved_solver::<NAMatrix>(&a)),
            ("v2-vec", &|| second_improved_solver::<VecMatrix>(&b)),
        ];
        for (name, run) in runs {
            c.count("solver_runs", 1);
            match guard(run) {
                Err(e) => c.fail(&format!("{name}-panic"), e),
                Ok(r) => {
                    if let Err((k, m)) = check_exact(n, w, opt, &r) {
                        c.fail(&format!("{name}-{k}"), format!("{name}: {m}"));
                    }
                }
            }
        }
    });
    let mut p = Plan {
        chunk: 2048,
        ..Plan::default()
    };
    for a in [
        BIN, TWO, INT3, INT4, FRAC, FRAC4, TINY, HUGE, BIGM, MIX, NEAR,
    ] {
        for n in 2..=4 {
            p.full.push((n, a));
        }
    }
    p.full.extend([
        (5, BIN),
        (5, INT3),
        (5, FRAC),
        (5, BIGM),
        (5, NEAR),
        (5, MIX),
        (6, BIN),
    ]);
    p.relabel = vec![5, 6];
    p.plain = vec![2, 3, 4, 5, 6, 7, 8, 9];
    p.residues = vec![(6, 360), (7, 240), (8, 48), (9, 24), (10, 6)];
    if t {
        p.full.extend([
            (5, INT4),
            (5, FRAC4),
            (5, TINY),
            (5, HUGE),
            (6, TWO),
            (6, BIGM),
            (6, FRAC),
        ]);
        p.relabel.push(7);
        p.plain.push(10);
        p.residues.extend([(8, 720), (9, 240), (10, 48)]);
    }
    p.add(&mut s, "", f);
    mcrt::drv::main(s)
}
