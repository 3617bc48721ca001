//! Instance families.
use crate::oracle::tri;
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, VecMatrix};

pub fn edges(n: usize) -> usize {
    n * (n - 1) / 2
}
pub fn na(n: usize, w: &[f64]) -> NAMatrix {
    let mut m = NAMatrix::from_dim(n);
    for i in 0..n {
        for j in i + 1..n {
            let c = w[tri(n, i, j)];
            m.set(i, j, c);
            m.set(j, i, c);
        }
    }
    m
}
pub fn vm(n: usize, w: &[f64]) -> VecMatrix {
    let mut m = VecMatrix::from_dim(n);
    for i in 0..n {
        for j in i + 1..n {
            let c = w[tri(n, i, j)];
            m.set(i, j, c);
            m.set(j, i, c);
        }
    }
    m
}
pub fn graph(n: usize, w: &[f64]) -> Graph {
    let rows: Vec<Vec<Edge>> = (0..n)
        .map(|i| {
            (0..n)
                .filter(|&j| j != i)
                .map(|j| Edge {
                    to: j,
                    cost: w[tri(n, i, j)],
                })
                .collect()
        })
        .collect();
    Graph::from(rows)
}
pub fn upper(n: usize, f: impl Fn(usize, usize) -> f64) -> Vec<f64> {
    let mut w = Vec::with_capacity(edges(n));
    for i in 0..n {
        for j in i + 1..n {
            w.push(f(i, j));
        }
    }
    w
}

/// alphabets of edge costs
#[derive(Clone, Copy)]
pub struct Alpha {
    pub name: &'static str,
    pub v: &'static [f64],
}
pub const BIN: Alpha = Alpha {
    name: "zero-one",
    v: &[0.0, 1.0],
};
pub const TWO: Alpha = Alpha {
    name: "one-two",
    v: &[1.0, 2.0],
};
pub const INT3: Alpha = Alpha {
    name: "ints",
    v: &[1.0, 2.0, 4.0],
};
pub const INT4: Alpha = Alpha {
    name: "zero-ints",
    v: &[0.0, 1.0, 3.0, 7.0],
};
pub const FRAC: Alpha = Alpha {
    name: "fractions",
    v: &[0.1, 0.7, 1.3],
};
pub const FRAC4: Alpha = Alpha {
    name: "fractions4",
    v: &[0.1, 0.25, 0.7, 1.3],
};
pub const TINY: Alpha = Alpha {
    name: "tiny",
    v: &[1e-18, 2.5e-18, 7e-18],
};
pub const HUGE: Alpha = Alpha {
    name: "huge",
    v: &[1e90, 3e90, 1.7e91],
};
pub const BIGM: Alpha = Alpha {
    name: "forbidden-edges",
    v: &[1.0, 2.5, 1e18],
};
pub const MIX: Alpha = Alpha {
    name: "mixed",
    v: &[0.0, 0.5, 1e6],
};
pub const NEAR: Alpha = Alpha {
    name: "f32-twins",
    v: &[1.0, 1.00000001, 1.00000003],
};
pub const MET3: Alpha = Alpha {
    name: "metric",
    v: &[2.0, 3.0, 4.0],
};
pub const METF: Alpha = Alpha {
    name: "metric-fractions",
    v: &[0.5, 0.7, 0.9],
};
pub const METT: Alpha = Alpha {
    name: "metric-twins",
    v: &[1.0, 1.00000001, 1.5],
};

/// All weightings of the complete graph over an alphabet, one part of `parts`.
pub fn weightings(n: usize, a: &[f64], part: u64, parts: u64, mut f: impl FnMut(&[f64])) -> u64 {
    let e = edges(n);
    let k = a.len() as u64;
    let total = k.pow(e as u32);
    let (lo, hi) = (total * part / parts, total * (part + 1) / parts);
    let mut w = vec![0.0; e];
    for c in lo..hi {
        let mut x = c;
        for y in w.iter_mut().rev() {
            *y = a[(x % k) as usize];
            x /= k;
        }
        f(&w);
    }
    hi - lo
}
pub fn total(n: usize, a: &[f64]) -> u64 {
    (a.len() as u64).pow(edges(n) as u32)
}

/// next arrangement in lexicographic order (independent of the code under test)
pub fn next_arrangement(p: &mut [usize]) -> bool {
    let n = p.len();
    let Some(i) = (1..n).rev().find(|&i| p[i - 1] < p[i]) else {
        return false;
    };
    let j = (i..n).rev().find(|&j| p[j] > p[i - 1]).unwrap();
    p.swap(i - 1, j);
    p[i..].reverse();
    true
}
/// every renumbering of the cities of an instance (part of `parts`)
pub fn relabelings(
    n: usize,
    w: &[f64],
    part: usize,
    parts: usize,
    mut f: impl FnMut(&[usize], &[f64]),
) {
    let mut p: Vec<usize> = (0..n).collect();
    let mut k = 0usize;
    loop {
        if k % parts == part {
            let v = upper(n, |i, j| w[tri(n, p[i], p[j])]);
            f(&p, &v);
        }
        k += 1;
        if !next_arrangement(&mut p) {
            break;
        }
    }
}
pub fn dist(p: &[(f64, f64)]) -> Vec<f64> {
    upper(p.len(), |i, j| {
        ((p[i].0 - p[j].0).powi(2) + (p[i].1 - p[j].1).powi(2)).sqrt()
    })
}

/// Named structured instances of a given size; `metric` tells whether the triangle inequality holds exactly.
pub struct Named {
    pub name: String,
    pub w: Vec<f64>,
    pub metric: bool,
}
pub fn structured(n: usize) -> Vec<Named> {
    let mut out = vec![];
    let mut add = |name: &str, w: Vec<f64>| {
        let metric = crate::oracle::metric(n, &w);
        out.push(Named {
            name: format!("{name}{n}"),
            w,
            metric,
        });
    };
    // integer points on a line: many ties between tours
    add("line", upper(n, |i, j| (j - i) as f64));
    // line with growing gaps
    add(
        "gaps",
        upper(n, |i, j| ((1u64 << j.min(40)) - (1u64 << i.min(40))) as f64),
    );
    // cycle metric
    add("cycle", upper(n, |i, j| (j - i).min(n - (j - i)) as f64));
    // star: distance over a centre
    add("star", upper(n, |i, j| (i + 1 + j + 1) as f64));
    // hub: city 0 close to everyone, others far from each other, many equal costs
    add("hub", upper(n, |i, _| if i == 0 { 1.0 } else { 2.0 }));
    // two clusters
    add(
        "clusters",
        upper(n, |i, j| if i % 2 == j % 2 { 1.0 } else { 10.0 }),
    );
    // equal costs
    add("uniform", upper(n, |_, _| 3.0));
    // ultrametric
    add("ultra", upper(n, |_, j| 0.5 * (j as f64)));
    // Manhattan grid of width 3
    add("grid", {
        let c = |k: usize| ((k % 3) as i64, (k / 3) as i64);
        upper(n, |i, j| {
            let (a, b) = (c(i), c(j));
            ((a.0 - b.0).abs() + (a.1 - b.1).abs()) as f64
        })
    });
    // points in the plane without symmetry
    add("plane", {
        let p: Vec<(f64, f64)> = (0..n)
            .map(|k| {
                (
                    ((k * 37 + 11) % 101) as f64 / 7.0,
                    ((k * k * 53 + 29 * k) % 97) as f64 / 5.0,
                )
            })
            .collect();
        dist(&p)
    });
    // coincident points
    add("twins", {
        let p: Vec<(f64, f64)> = (0..n)
            .map(|k| (((k / 2) * 3) as f64, ((k / 2) % 2) as f64 * 4.0))
            .collect();
        dist(&p)
    });
    // non-metric: costs grow quickly along a hidden order
    add(
        "powers",
        upper(n, |i, j| 2f64.powi(((i * 5 + j * 5 + i * j) % 9) as i32)),
    );
    // greedy trap: cheap edges that force an expensive closing edge
    add(
        "trap",
        upper(n, |i, j| {
            if j == i + 1 {
                1.0
            } else if i == 0 && j == n - 1 {
                1000.0
            } else {
                1.5 + ((i * j) % 3) as f64 * 0.25
            }
        }),
    );
    // free hub: all edges of the last city cost nothing
    add(
        "freehub",
        upper(n, |i, j| {
            if j == n - 1 {
                0.0
            } else {
                1.0 + ((i + 2 * j) % 4) as f64
            }
        }),
    );
    out
}
/// symmetric polynomial residues: w(i,j) = ((a*i*j + b*(i+j) + c*(i*i+j*j)) mod p) / div + off
pub fn residue(n: usize, a: u64, b: u64, c: u64, p: u64, div: f64, off: f64) -> Vec<f64> {
    upper(n, |i, j| {
        let (i, j) = (i as u64 + 1, j as u64 + 1);
        ((a * i * j + b * (i + j) + c * (i * i + j * j)) % p) as f64 / div + off
    })
}

/// Every graph on n vertices up to renumbering (n = 6, 7, 8: 156, 1044, 12346 of them); bit k of an entry is the k-th pair
/// in the order (1,0), (2,0), (2,1), (3,0), …
pub fn graphs(n: usize) -> Vec<u64> {
    let text = match n {
        6 => include_str!("graphs6.txt"),
        7 => include_str!("graphs7.txt"),
        8 => include_str!("graphs8.txt"),
        _ => panic!("no list of graphs with {n} vertices"),
    };
    text.lines()
        .map(|l| u64::from_str_radix(l, 16).unwrap())
        .collect()
}
/// the complete graph with cost `yes` on the edges of graph `g` and `no` on the others, slightly perturbed by `step` per edge
pub fn two_valued(n: usize, g: u64, yes: f64, no: f64, step: f64) -> Vec<f64> {
    upper(n, |i, j| {
        let k = j * (j - 1) / 2 + i;
        (if g >> k & 1 == 1 { yes } else { no }) + step * (((i * 3 + j * 5) % 7) as f64)
    })
}

/// A complete graph whose costs are almost all different.
pub fn scattered(n: usize, k: usize) -> Vec<f64> {
    upper(n, |i, j| {
        let x = (i + j) as f64 * 0.7548776662466927 + (i * j) as f64 * 0.5698402909980532 + (k + 1) as f64 * 0.6180339887498949 * (1 + i + j) as f64;
        1.0 + x.fract() * 4.0
    })
}
/// The same instance with the names of two cities exchanged.
pub fn exchanged(n: usize, w: &[f64], a: usize, b: usize) -> Vec<f64> {
    let name = |x: usize| if x == a { b } else if x == b { a } else { x };
    upper(n, |i, j| crate::wt(n, w, name(i), name(j)))
}
/// Positions at the borders of the usual ways to divide a range.
pub fn borders(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 4, n / 2, n - 2, n - 1, 3 * n / 4];
    for b in [8, 16, 32, 64, 128, 256] {
        v.extend([b - 1, b]);
    }
    v.retain(|&x| x < n);
    v.sort_unstable();
    v.dedup();
    v
}
/// The first position of the largest value, where no other comes near.
pub fn unique_max(v: &[f64]) -> Option<usize> {
    let b = (0..v.len()).fold(0, |b, i| if v[i] > v[b] { i } else { b });
    v.iter().enumerate().all(|(i, x)| i == b || !crate::close(*x, v[b])).then_some(b)
}
