//! C17: tour and metric predicates, path evaluation.
use hx::*;
use std::rc::Rc;
use walky::datastructures::{AdjacencyMatrix, NAMatrix, VecMatrix};
use walky::solvers::is_hamiltonian_cycle;

/// all sequences over 0..k of a given length
fn sequences(k: usize, len: usize, mut f: impl FnMut(&[usize])) {
    let mut s = vec![0; len];
    loop {
        f(&s);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            s[i] += 1;
            if s[i] < k {
                break;
            }
            s[i] = 0;
        }
    }
}
const ALLOW: f64 = 1e-10;
/// Some(answer), or None where rounding of the sums decides
fn metric_answer(n: usize, w: &[f64]) -> Option<bool> {
    let mut sure = true;
    for i in 0..n {
        for j in 0..n {
            if i == j {
                continue;
            }
            for k in 0..n {
                let d = wt(n, w, i, j);
                let s = wt(n, w, i, k) + wt(n, w, k, j);
                let over = d - s - ALLOW;
                let doubt = 4.0 * f64::EPSILON * (d.abs() + s.abs() + ALLOW);
                if over > doubt {
                    return Some(false);
                }
                // d <= s exactly is never doubtful: both sides are computed the same way
                if over > -doubt && d > s {
                    sure = false;
                }
            }
        }
    }
    if sure {
        Some(true)
    } else {
        None
    }
}
fn metric_check(c: &mut Ctx, n: usize, w: &[f64]) {
    let Some(want) = metric_answer(n, w) else {
        c.count("skipped_within_rounding", 1);
        return;
    };
    c.count(if want { "metric" } else { "not_metric" }, 1);
    let (a, b) = (na(n, w), vm(n, w));
    for (name, got) in [
        ("matrix", guard(|| a.is_metric())),
        ("vector matrix", guard(|| b.is_metric())),
    ] {
        match got {
            Err(e) => c.fail("metric-panic", e),
            Ok(g) if g != want => c.fail(
                "metric",
                format!("{name}: is_metric() is {g}, expected {want}"),
            ),
            _ => {}
        }
    }
}

fn main() {
    let mut s = Spec::new("C17", Level::Exploration);
    s.rule = "every closed vertex sequence up to three longer than a tour for up to five cities (six in thorough runs), \
              vertices outside the graph included; every weighting over alphabets with exact, slightly broken (within and \
              beyond the stated allowance of 1e-10) and clearly broken triangle inequalities; every vertex sequence up to \
              length five for path and cycle evaluation; both matrix forms"
        .into();
    s.assumptions = vec![
        "cases where rounding of the sums decides the metric check are left out (counted)".into(),
    ];
    let t = mcrt::drv::tier() == Tier::Thorough;
    for n in 1..=if t { 6usize } else { 5 } {
        for first in 0..=n {
            s.unit(format!("tours-{n}-{first}"), move |c| {
                c.begin(
                    "closed sequences over n cities starting at",
                    &[n as f64, first as f64],
                );
                let a = NAMatrix::from_dim(n);
                let b = VecMatrix::from_dim(n);
                // one symbol outside the graph; a far one as well
                for len in 0..=n + 2 {
                    sequences(n + 1, len, |mid| {
                        for far in [n, n + 5] {
                            if far != n && !mid.contains(&n) {
                                continue;
                            }
                            let mut p = vec![first];
                            p.extend(mid.iter().map(|&x| if x == n { far } else { x }));
                            p.push(first);
                            c.count("evaluations", 1);
                            let want = p.len() == n + 1 && is_perm(n, &p[..n]);
                            if want {
                                c.count("tours", 1);
                            }
                            mcrt::drv::distinct(
                                p.iter().fold(n as u64, |h, &x| mcrt::fx::mix(h, x as u64)),
                            );
                            for (name, got) in [
                                ("matrix", guard(|| is_hamiltonian_cycle(&p, &a))),
                                ("vector matrix", guard(|| is_hamiltonian_cycle(&p, &b))),
                            ] {
                                match got {
                                    Err(e) => c.fail("tour-panic", format!("{p:?}: {e}")),
                                    Ok(g) if g != want => c.fail(
                                        "tour",
                                        format!(
                                            "{name}: {n} cities, {p:?} judged {g}, expected {want}"
                                        ),
                                    ),
                                    _ => {}
                                }
                            }
                        }
                    });
                    mcrt::drv::heartbeat();
                }
            });
        }
    }
    s.unit("long-tours", |c| {
        // real tours of larger instances and their near misses
        for n in (6..=40usize).chain([63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 300]) {
            let a = NAMatrix::from_dim(n);
            for step in 1..n {
                let p: Vec<usize> = (0..=n).map(|k| (k * step) % n).collect();
                let want = is_perm(n, &p[..n]);
                c.begin("stride tours", &[n as f64, step as f64]);
                let mut cases = vec![(p.clone(), want)];
                for k in 1..n {
                    let mut q = p.clone();
                    q[k] = q[k - 1];
                    cases.push((q, false));
                    let mut q = p.clone();
                    q.remove(k);
                    cases.push((q, false));
                    let mut q = p.clone();
                    q.insert(k, p[(k * 7) % n]);
                    cases.push((q, false));
                }
                for (q, want) in cases {
                    c.count("evaluations", 1);
                    match guard(|| is_hamiltonian_cycle(&q, &a)) {
                        Err(e) => c.fail("tour-panic", format!("{q:?}: {e}")),
                        Ok(g) if g != want => c.fail(
                            "tour",
                            format!("{n} cities, {q:?} judged {g}, expected {want}"),
                        ),
                        _ => {}
                    }
                }
            }
        }
    });
    let f: Check = Rc::new(|c, _, n, w| metric_check(c, n, w));
    let slight = Alpha {
        name: "allowance",
        v: &[1.0, 2.0, 2.0 + 0.5e-10, 2.0 + 2e-10, 3.0],
    };
    let scaled = Alpha {
        name: "small-scale",
        v: &[1e-9, 2e-9, 2.05e-9, 3e-9],
    };
    let large = Alpha {
        name: "large-scale",
        v: &[1e12, 2e12, 3e12],
    };
    let mut p = Plan {
        chunk: 8192,
        ..Plan::default()
    };
    for a in [
        BIN, TWO, INT3, INT4, FRAC, FRAC4, BIGM, MIX, MET3, METF, slight, scaled, large,
    ] {
        p.full.extend([(2, a), (3, a), (4, a)]);
    }
    p.full.extend([(5, TWO), (5, INT3), (5, FRAC), (6, BIN)]);
    if t {
        p.full.extend([(5, INT4), (5, slight), (6, TWO), (6, INT3)]);
    }
    p.plain = (5..=12).collect();
    p.relabel = vec![5, 6];
    p.residues = vec![(6, 480), (8, 480), (12, 120), (30, 24), (33, 12), (65, 12), (130, 4), (257, 1)];
    p.add(&mut s, "metric ", f);
    // one broken triangle anywhere in a metric instance
    s.unit("broken-triangle", |c| {
        for n in (3..=12usize).chain([33, 65]) {
            let base = upper(n, |i, j| 10.0 + ((i * 3 + j * 5) % 7) as f64);
            for e in 0..edges(n) {
                for v in [40.0, 0.5, 3.0, 19.999] {
                    if n > 12 && v > 0.5 && v < 40.0 {
                        continue;
                    }
                    let mut w = base.clone();
                    w[e] = v;
                    c.begin("one cost replaced", &w);
                    mcrt::drv::distinct(hash_instance(n, &w));
                    metric_check(c, n, &w);
                }
            }
        }
    });
    for n in 1..=if t { 5usize } else { 4 } {
        s.unit(format!("paths-{n}"), move |c| {
            let w: Vec<f64> = (0..edges(n))
                .map(|k| 1.0 / 3.0 + 2f64.powi(k as i32))
                .collect();
            let (a, b) = (na(n, &w), vm(n, &w));
            for len in 0..=n + 2 {
                sequences(n, len, |p| {
                    let p = p.to_vec();
                    c.begin("path", &p.iter().map(|&x| x as f64).collect::<Vec<_>>());
                    let path: f64 = p.windows(2).map(|x| wt(n, &w, x[0], x[1])).sum();
                    let cyc = if len < 2 {
                        0.0
                    } else {
                        path + wt(n, &w, p[len - 1], p[0])
                    };
                    mcrt::drv::distinct(
                        p.iter()
                            .fold(77 + n as u64, |h, &x| mcrt::fx::mix(h, x as u64)),
                    );
                    let got = guard(|| {
                        [
                            a.evaluate_path(&p),
                            b.evaluate_path(&p),
                            a.evaluate_circle(&p),
                            b.evaluate_circle(&p),
                        ]
                    });
                    match got {
                        Err(e) => c.fail("path-panic", format!("{p:?}: {e}")),
                        Ok(g) => {
                            if !close(g[0], path) || !close(g[1], path) {
                                c.fail(
                                    "path",
                                    format!("{p:?}: path costs {} / {}, sum is {path}", g[0], g[1]),
                                );
                            }
                            if !close(g[2], cyc) || !close(g[3], cyc) {
                                c.fail(
                                    "circle",
                                    format!("{p:?}: cycle costs {} / {}, sum is {cyc}", g[2], g[3]),
                                );
                            }
                        }
                    }
                });
            }
        });
    }
    mcrt::drv::main(s)
}
