//! C20: the graph container.
use hx::*;
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, VecMatrix};

/// all sequences of insertions up to `depth`, checked after every step
struct Walk<'a> {
    n: usize,
    ops: &'a [(usize, usize, f64)],
    depth: usize,
    c: &'a mut Ctx,
}
impl Walk<'_> {
    fn check(&mut self, g: &Graph, done: &[(usize, usize, f64)], initial: &[(usize, usize, f64)]) {
        let n = self.n;
        self.c.begin(
            "insertions (from, to, cost)",
            &done
                .iter()
                .flat_map(|o| [o.0 as f64, o.1 as f64, o.2])
                .collect::<Vec<_>>(),
        );
        self.c.count("mc_states", 1);
        self.c.count("transitions", 1);
        self.c.count("executions", 1);
        let mut key: Vec<_> = done
            .iter()
            .chain(initial)
            .map(|o| (o.0.min(o.1), o.0.max(o.1), o.2.to_bits()))
            .collect();
        key.sort_unstable();
        mcrt::drv::distinct(key.iter().fold(n as u64, |h, k| {
            mcrt::fx::mix(mcrt::fx::mix(mcrt::fx::mix(h, k.0 as u64), k.1 as u64), k.2)
        }));
        let mut ends: Vec<Vec<(usize, u64)>> = vec![vec![]; n];
        let mut sum = 0.0;
        for &(a, b, w) in initial.iter().chain(done) {
            ends[a].push((b, w.to_bits()));
            ends[b].push((a, w.to_bits()));
            sum += w;
        }
        let r = guard(|| {
            (
                g.num_vertices(),
                (0..n).map(|v| g.vertex_degree(v)).collect::<Vec<_>>(),
                g.iter().map(|v| v.degree()).collect::<Vec<_>>(),
                g.iter()
                    .map(|v| {
                        v.iter()
                            .map(|e| (e.to, e.cost.to_bits()))
                            .collect::<Vec<_>>()
                    })
                    .collect::<Vec<_>>(),
                g.directed_edge_weight(),
                g.undirected_edge_weight(),
            )
        });
        let (nv, deg, deg2, mut lists, dw, uw) = match r {
            Err(e) => return self.c.fail("panic", e),
            Ok(x) => x,
        };
        if nv != n {
            self.c
                .fail("vertices", format!("{nv} vertices, expected {n}"));
        }
        let want: Vec<usize> = ends.iter().map(|e| e.len()).collect();
        if deg != want || deg2 != want {
            self.c.fail(
                "degree",
                format!("degrees {deg:?} / {deg2:?}, inserted ends {want:?}"),
            );
        }
        for l in lists.iter_mut() {
            l.sort_unstable();
        }
        for l in ends.iter_mut() {
            l.sort_unstable();
        }
        if lists != ends {
            self.c
                .fail("edges", format!("edges {lists:?}, inserted {ends:?}"));
        }
        if !close(dw, 2.0 * sum) {
            self.c.fail(
                "directed-weight",
                format!("directed weight {dw}, inserted {}", 2.0 * sum),
            );
        }
        if !close(uw, sum) {
            self.c.fail(
                "undirected-weight",
                format!("undirected weight {uw}, inserted {sum}"),
            );
        }
        // simple graphs convert to matrices
        let simple = key.windows(2).all(|k| (k[0].0, k[0].1) != (k[1].0, k[1].1))
            && key.iter().all(|k| k.0 != k.1);
        if simple {
            let m = guard(|| {
                let a: NAMatrix = g.into();
                let b: VecMatrix = g.clone().into();
                (a, b)
            });
            let (a, b) = match m {
                Err(e) => return self.c.fail("convert-panic", e),
                Ok(x) => x,
            };
            let cost = |i: usize, j: usize| {
                key.iter()
                    .find(|k| (k.0, k.1) == (i.min(j), i.max(j)))
                    .map(|k| f64::from_bits(k.2))
                    .unwrap_or(f64::INFINITY)
            };
            for i in 0..n {
                for j in 0..n {
                    if i != j
                        && (a.get(i, j).to_bits() != cost(i, j).to_bits()
                            || b.get(i, j).to_bits() != cost(i, j).to_bits())
                    {
                        self.c.fail(
                            "matrix",
                            format!(
                                "cost {i}-{j}: {} / {}, inserted {}",
                                a.get(i, j),
                                b.get(i, j),
                                cost(i, j)
                            ),
                        );
                    }
                }
            }
            if key.len() == edges(n) && n >= 2 {
                self.c.count("complete_graphs", 1);
                let mut p: Vec<usize> = (0..n).collect();
                loop {
                    let path: f64 = p.windows(2).map(|x| cost(x[0], x[1])).sum();
                    let cyc = path + cost(p[n - 1], p[0]);
                    let got = [
                        a.evaluate_path(&p),
                        b.evaluate_path(&p),
                        a.evaluate_circle(&p),
                        b.evaluate_circle(&p),
                    ];
                    if !close(got[0], path)
                        || !close(got[1], path)
                        || !close(got[2], cyc)
                        || !close(got[3], cyc)
                    {
                        self.c.fail(
                            "tour",
                            format!("{p:?}: {got:?}, inserted path {path}, cycle {cyc}"),
                        );
                    }
                    if !next_arrangement(&mut p) {
                        break;
                    }
                }
            }
        }
    }
    fn go(
        &mut self,
        g: &Graph,
        done: &mut Vec<(usize, usize, f64)>,
        initial: &[(usize, usize, f64)],
    ) {
        self.check(g, done, initial);
        if done.len() == self.depth {
            return;
        }
        for &(a, b, w) in self.ops {
            let mut h = g.clone();
            done.push((a, b, w));
            if let Err(e) = guard(|| h.add_undirected_edge(a, b, w)) {
                self.c.begin(
                    "insertions",
                    &done
                        .iter()
                        .flat_map(|o| [o.0 as f64, o.1 as f64, o.2])
                        .collect::<Vec<_>>(),
                );
                self.c.fail("insert-panic", e);
            }
            self.go(&h, done, initial);
            done.pop();
        }
    }
}

fn main() {
    let mut s = Spec::new("C20", Level::ModelChecking);
    s.rule = "the state space of the adjacency-list graph under edge insertions: every sequence of insertions up to a depth \
              (parallel edges, both directions and self-loops included), from the empty graph and from graphs built from \
              edge lists; after every step degrees, edge lists, weights and matrix conversions are compared with the \
              inserted edges; on complete graphs every tour is evaluated"
        .into();
    let t = mcrt::drv::tier() == Tier::Thorough;
    let empty = |n: usize| Graph::from(vec![vec![]; n]);
    // (cities, depth, costs, loops)
    let mut plans: Vec<(usize, usize, Vec<f64>, bool)> = vec![
        (1, 5, vec![0.0, 1.5], true),
        (2, if t { 6 } else { 5 }, vec![0.0, 2.5], true),
        (3, if t { 5 } else { 4 }, vec![0.1, 3.0], true),
        (3, 6, vec![0.7], false),
        (4, if t { 5 } else { 4 }, vec![1e-3], true),
        (5, if t { 4 } else { 3 }, vec![1.0, 1e18], true),
    ];
    if t {
        plans.push((4, 6, vec![0.25], false));
    }
    for (pi, (n, depth, costs, loops)) in plans.into_iter().enumerate() {
        let mut ops = vec![];
        for a in 0..n {
            for b in 0..n {
                if a != b || loops {
                    for &w in &costs {
                        ops.push((a, b, w));
                    }
                }
            }
        }
        for first in 0..ops.len() {
            let ops = ops.clone();
            s.unit(format!("sequences-{pi}-{n}-{first}"), move |c| {
                let mut g = empty(n);
                if first == 0 {
                    let mut w = Walk {
                        n,
                        ops: &ops,
                        depth: 0,
                        c,
                    };
                    w.go(&g, &mut vec![], &[]);
                }
                let (a, b, x) = ops[first];
                if let Err(e) = guard(|| g.add_undirected_edge(a, b, x)) {
                    c.fail("insert-panic", e);
                }
                let mut w = Walk {
                    n,
                    ops: &ops,
                    depth,
                    c,
                };
                w.go(&g, &mut vec![(a, b, x)], &[]);
                c.sample(|| {
                    format!(
                        "{n} cities, sequences of {depth} insertions starting with {:?}",
                        ops[first]
                    )
                });
            });
        }
    }
    // complete graphs in every order of insertion
    for n in [2usize, 3, 4] {
        s.unit(format!("complete-{n}"), move |c| {
            let mut e: Vec<(usize, usize, f64)> = vec![];
            for i in 0..n {
                for j in i + 1..n {
                    e.push((i, j, 1.0 + e.len() as f64 * 0.37));
                }
            }
            let mut order: Vec<usize> = (0..e.len()).collect();
            loop {
                let mut g = empty(n);
                let mut done = vec![];
                for (k, &x) in order.iter().enumerate() {
                    let (mut a, mut b, w) = e[x];
                    if (x + k) % 2 == 1 {
                        std::mem::swap(&mut a, &mut b);
                    }
                    if let Err(e) = guard(|| g.add_undirected_edge(a, b, w)) {
                        c.fail("insert-panic", e);
                    }
                    done.push((a, b, w));
                }
                let mut w = Walk {
                    n,
                    ops: &[],
                    depth: done.len(),
                    c,
                };
                w.check(&g, &done, &[]);
                if !next_arrangement(&mut order) {
                    break;
                }
            }
        });
    }
    // graphs that start from edge lists
    s.unit("from-lists", move |c| {
        for n in 2..=4usize {
            for mask in 0u32..1 << edges(n) {
                let mut init = vec![];
                let mut rows: Vec<Vec<Edge>> = vec![vec![]; n];
                for i in 0..n {
                    for j in i + 1..n {
                        let k = tri(n, i, j);
                        if mask >> k & 1 == 1 {
                            let w = 0.5 + k as f64;
                            init.push((i, j, w));
                            rows[i].push(Edge { to: j, cost: w });
                            rows[j].push(Edge { to: i, cost: w });
                        }
                    }
                }
                let g = Graph::from(rows);
                let ops: Vec<(usize, usize, f64)> = (0..n)
                    .flat_map(|a| (0..n).map(move |b| (a, b, 4.25)))
                    .collect();
                let mut w = Walk {
                    n,
                    ops: &ops,
                    depth: 2,
                    c,
                };
                w.go(&g, &mut vec![], &init);
            }
        }
    });
    // longer histories: dense graphs
    s.unit("long", move |c| {
        for n in [6usize, 9, 15, 33] {
            let mut g = empty(n);
            let mut done = vec![];
            for k in 0..6 * n {
                let (a, b) = ((k * 5 + k / n) % n, (k * 7 + 3) % n);
                let w = (k % 11) as f64 * 0.3;
                if let Err(e) = guard(|| g.add_undirected_edge(a, b, w)) {
                    c.fail("insert-panic", e);
                }
                done.push((a, b, w));
                let mut x = Walk {
                    n,
                    ops: &[],
                    depth: done.len(),
                    c,
                };
                x.check(&g, &done, &[]);
            }
        }
    });
    mcrt::drv::main(s)
}
