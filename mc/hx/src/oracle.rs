//! Reference computations.

/// symmetric instance, weights of the upper triangle in row order
#[inline]
pub fn tri(n: usize, i: usize, j: usize) -> usize {
    let (a, b) = if i < j { (i, j) } else { (j, i) };
    a * n - a * (a + 1) / 2 + (b - a - 1)
}
#[inline]
pub fn wt(n: usize, w: &[f64], i: usize, j: usize) -> f64 {
    if i == j {
        0.0
    } else {
        w[tri(n, i, j)]
    }
}
pub const REL: f64 = 1e-9;
/// equal up to rounding of sums of non-negative numbers
#[inline]
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= REL * a.abs().max(b.abs())
}
/// a <= b up to rounding
#[inline]
pub fn leq(a: f64, b: f64) -> bool {
    a <= b || close(a, b)
}

/// length of the closed tour through the permutation
pub fn tour(n: usize, w: &[f64], p: &[usize]) -> f64 {
    if p.len() < 2 {
        return 0.0;
    }
    let mut s = 0.0;
    for k in 0..p.len() {
        s += wt(n, w, p[k], p[(k + 1) % p.len()]);
    }
    s
}
pub fn is_perm(n: usize, p: &[usize]) -> bool {
    if p.len() != n {
        return false;
    }
    let mut seen = vec![false; n];
    for &x in p {
        if x >= n || seen[x] {
            return false;
        }
        seen[x] = true;
    }
    true
}
/// solver result for an exact problem: valid permutation, its length, equal to the optimum
pub fn check_exact(
    n: usize,
    w: &[f64],
    opt: f64,
    r: &(f64, Vec<usize>),
) -> Result<(), (&'static str, String)> {
    if !is_perm(n, &r.1) {
        return Err((
            "not-a-permutation",
            format!(
                "returned {:?} is not a permutation of 0..{n} (cost {})",
                r.1, r.0
            ),
        ));
    }
    let t = tour(n, w, &r.1);
    if !close(t, r.0) {
        return Err((
            "cost-mismatch",
            format!(
                "reported cost {} but the tour {:?} has length {t}",
                r.0, r.1
            ),
        ));
    }
    if !close(t, opt) {
        return Err((
            "not-optimal",
            format!("returned length {t} with {:?}, optimum is {opt}", r.1),
        ));
    }
    Ok(())
}

/// optimum by dynamic programming over subsets
pub fn held_karp(n: usize, w: &[f64]) -> f64 {
    if n < 2 {
        return 0.0;
    }
    if n == 2 {
        return w[0] + w[0];
    }
    let m = n - 1;
    let full = 1usize << m;
    let mut d = vec![f64::INFINITY; full * m];
    for j in 0..m {
        d[(1 << j) * m + j] = wt(n, w, 0, j + 1);
    }
    for s in 1..full {
        for j in 0..m {
            if s >> j & 1 == 0 {
                continue;
            }
            let v = d[s * m + j];
            if v == f64::INFINITY {
                continue;
            }
            for k in 0..m {
                if s >> k & 1 == 1 {
                    continue;
                }
                let t = s | 1 << k;
                let x = v + wt(n, w, j + 1, k + 1);
                if x < d[t * m + k] {
                    d[t * m + k] = x;
                }
            }
        }
    }
    let mut best = f64::INFINITY;
    for j in 0..m {
        best = best.min(d[(full - 1) * m + j] + wt(n, w, j + 1, 0));
    }
    best
}
/// optimum by trying every tour that starts at city 0
pub fn brute(n: usize, w: &[f64]) -> f64 {
    fn rec(n: usize, w: &[f64], p: &mut Vec<usize>, used: u32, best: &mut f64) {
        if p.len() == n {
            let t = tour(n, w, p);
            if t < *best {
                *best = t;
            }
            return;
        }
        for i in 1..n {
            if used >> i & 1 == 0 {
                p.push(i);
                rec(n, w, p, used | 1 << i, best);
                p.pop();
            }
        }
    }
    let mut best = f64::INFINITY;
    rec(n, w, &mut vec![0], 1, &mut best);
    best
}
pub fn optimum(n: usize, w: &[f64]) -> f64 {
    if n <= 6 {
        brute(n, w)
    } else {
        held_karp(n, w)
    }
}

/// weight of a minimum spanning tree of the vertices in `vs` (Kruskal)
pub fn mst(n: usize, w: &[f64], vs: &[usize]) -> f64 {
    let mut e: Vec<(f64, usize, usize)> = vec![];
    for (a, &i) in vs.iter().enumerate() {
        for &j in &vs[a + 1..] {
            e.push((wt(n, w, i, j), i, j));
        }
    }
    e.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
    let mut p: Vec<usize> = (0..n).collect();
    fn find(p: &mut [usize], mut x: usize) -> usize {
        while p[x] != x {
            p[x] = p[p[x]];
            x = p[x];
        }
        x
    }
    let mut s = 0.0;
    for (c, i, j) in e {
        let (a, b) = (find(&mut p, i), find(&mut p, j));
        if a != b {
            p[a] = b;
            s += c;
        }
    }
    s
}
/// weight of a minimum one-tree with special vertex v (for two cities the only edge counts twice)
pub fn one_tree_weight(n: usize, w: &[f64], v: usize) -> f64 {
    let vs: Vec<usize> = (0..n).filter(|&x| x != v).collect();
    let mut e: Vec<f64> = vs.iter().map(|&x| wt(n, w, v, x)).collect();
    e.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let two = if e.len() >= 2 {
        e[0] + e[1]
    } else {
        e[0] + e[0]
    };
    mst(n, w, &vs) + two
}
pub fn one_tree_bound(n: usize, w: &[f64]) -> f64 {
    (0..n)
        .map(|v| one_tree_weight(n, w, v))
        .fold(f64::NEG_INFINITY, f64::max)
}

/// all perfect matchings of the given vertices
pub fn perfect_matchings(vs: &[usize]) -> Vec<Vec<[usize; 2]>> {
    if vs.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..vs.len() {
        let rest: Vec<usize> = vs[1..].iter().copied().filter(|&x| x != vs[k]).collect();
        for mut m in perfect_matchings(&rest) {
            m.insert(0, [vs[0], vs[k]]);
            out.push(m);
        }
    }
    out
}
pub fn matching_cost(n: usize, w: &[f64], m: &[[usize; 2]]) -> f64 {
    m.iter().map(|e| wt(n, w, e[0], e[1])).sum()
}
/// minimum cost of a perfect matching, by dynamic programming over subsets
pub fn min_matching(n: usize, w: &[f64], vs: &[usize]) -> f64 {
    let m = vs.len();
    let mut d = vec![f64::INFINITY; 1 << m];
    d[0] = 0.0;
    for s in 0..1usize << m {
        if d[s] == f64::INFINITY {
            continue;
        }
        let Some(i) = (0..m).find(|i| s >> i & 1 == 0) else {
            continue;
        };
        for j in i + 1..m {
            if s >> j & 1 == 0 {
                let t = s | 1 << i | 1 << j;
                d[t] = d[t].min(d[s] + wt(n, w, vs[i], vs[j]));
            }
        }
    }
    d[(1 << m) - 1]
}
/// is `m` a perfect matching of exactly the vertices `vs`?
pub fn is_perfect_matching(vs: &[usize], m: &[[usize; 2]]) -> bool {
    let mut a: Vec<usize> = m.iter().flat_map(|e| [e[0], e[1]]).collect();
    let mut b = vs.to_vec();
    a.sort_unstable();
    b.sort_unstable();
    a == b
}
/// triangle inequality, exactly
pub fn metric(n: usize, w: &[f64]) -> bool {
    (0..n).all(|i| {
        (0..n).all(|j| i == j || (0..n).all(|k| wt(n, w, i, j) <= wt(n, w, i, k) + wt(n, w, k, j)))
    })
}
/// lengths that a nearest-neighbour tour starting at s can have, or None if `p` is not greedy
pub fn is_greedy(n: usize, w: &[f64], p: &[usize]) -> bool {
    if !is_perm(n, p) {
        return false;
    }
    for k in 0..n - 1 {
        let c = wt(n, w, p[k], p[k + 1]);
        if p[k + 1..].iter().any(|&x| wt(n, w, p[k], x) < c) {
            return false;
        }
    }
    true
}
