//! Judgements on results, shared by the harnesses of the modes.
use crate::oracle::*;
use walky::datastructures::{AdjacencyMatrix, Graph, NAMatrix};

/// is `g` a minimum spanning tree of the cities not in `ex`?
pub fn judge_tree(n: usize, w: &[f64], ex: &[usize], g: &Graph) -> Result<(), String> {
    let vs: Vec<usize> = (0..n).filter(|v| !ex.contains(v)).collect();
    if g.num_vertices() != n && !(vs.is_empty() && g.num_vertices() == 0) {
        return Err(format!(
            "{} vertices in the result, {n} cities",
            g.num_vertices()
        ));
    }
    let mut ends: Vec<(usize, usize)> = vec![];
    let mut total = 0.0;
    for (i, v) in g.iter().enumerate() {
        for e in v.iter() {
            if e.to >= n || e.to == i {
                return Err(format!("edge {i}-{} does not exist", e.to));
            }
            if ex.contains(&i) || ex.contains(&e.to) {
                return Err(format!("excluded city in edge {i}-{}", e.to));
            }
            if e.cost.to_bits() != wt(n, w, i, e.to).to_bits() {
                return Err(format!(
                    "edge {i}-{} has cost {}, input {}",
                    e.to,
                    e.cost,
                    wt(n, w, i, e.to)
                ));
            }
            ends.push((i, e.to));
            if i < e.to {
                total += e.cost;
            }
        }
    }
    let mut a = ends.clone();
    let mut b: Vec<_> = ends.iter().map(|&(x, y)| (y, x)).collect();
    a.sort_unstable();
    b.sort_unstable();
    if a != b {
        return Err(format!(
            "edges are not listed from both ends alike: {ends:?}"
        ));
    }
    if ends.len() != 2 * vs.len().saturating_sub(1) {
        return Err(format!(
            "{} edge ends for {} joined cities: {ends:?}",
            ends.len(),
            vs.len()
        ));
    }
    if let Some(&s) = vs.first() {
        let mut seen = vec![false; n];
        let mut st = vec![s];
        seen[s] = true;
        while let Some(x) = st.pop() {
            for e in g[x].iter() {
                if !seen[e.to] {
                    seen[e.to] = true;
                    st.push(e.to);
                }
            }
        }
        if let Some(v) = vs.iter().find(|&&v| !seen[v]) {
            return Err(format!("city {v} is not joined to the tree: {ends:?}"));
        }
    }
    let best = mst(n, w, &vs);
    if !close(total, best) {
        return Err(format!("weight {total}, minimum {best}: {ends:?}"));
    }
    if !close(g.undirected_edge_weight(), best) {
        return Err(format!(
            "reported weight {}, minimum {best}",
            g.undirected_edge_weight()
        ));
    }
    Ok(())
}

/// is `r` a closed tour through all cities with its length, not below the optimum?
pub fn judge_cycle(n: usize, w: &[f64], opt: f64, r: &(f64, Vec<usize>)) -> Result<(), String> {
    let p = &r.1;
    if p.len() != n + 1 || p.first() != p.last() || !is_perm(n, &p[..n]) {
        return Err(format!("{p:?} is not a closed tour through all {n} cities"));
    }
    let t = tour(n, w, &p[..n]);
    if !close(t, r.0) {
        return Err(format!("reported {} but {p:?} has length {t}", r.0));
    }
    if !leq(opt, t) {
        return Err(format!("length {t} below the optimum {opt}"));
    }
    Ok(())
}


/// is `r` a greedy tour with its length?
pub fn judge_greedy(n: usize, w: &[f64], r: &(f64, Vec<usize>)) -> Result<(), String> {
    if !is_perm(n, &r.1) {
        return Err(format!("{:?} is not a permutation of 0..{n}", r.1));
    }
    if !is_greedy(n, w, &r.1) {
        return Err(format!(
            "{:?} does not always go to a nearest unvisited city",
            r.1
        ));
    }
    let t = tour(n, w, &r.1);
    if !close(t, r.0) {
        return Err(format!("reported {} but {:?} has length {t}", r.0, r.1));
    }
    Ok(())
}


/// the best of some k distinct starts
pub fn judge_starts(
    n: usize,
    w: &[f64],
    single: &[f64],
    k: usize,
    r: &(f64, Vec<usize>),
) -> Result<(), String> {
    judge_greedy(n, w, r)?;
    if !single.iter().any(|&s| close(s, r.0)) {
        return Err(format!(
            "cost {} is not the cost of any start {single:?}",
            r.0
        ));
    }
    let worse = single.iter().filter(|&&s| leq(r.0, s)).count();
    if worse < k {
        return Err(format!(
            "{k} starts tried, result {} beaten by all but {worse} of the starts {single:?}",
            r.0
        ));
    }
    Ok(())
}


/// is `m` the distance matrix of the points, equal to `seq`?
pub fn judge_points(p: &[[f64; 2]], seq: &NAMatrix, m: &NAMatrix) -> Result<(), String> {
    let n = p.len();
    if m.shape() != (n, n) {
        return Err(format!("{n} points, shape {:?}", m.shape()));
    }
    for i in 0..n {
        if m[(i, i)] != 0.0 {
            return Err(format!("diagonal entry {} at point {i}", m[(i, i)]));
        }
        for j in 0..n {
            let d = (p[i][0] - p[j][0]).hypot(p[i][1] - p[j][1]);
            let got = m[(i, j)];
            if !(got >= 0.0 && (got - d).abs() <= 1e-12 * d) {
                return Err(format!(
                    "distance of points {i} {:?} and {j} {:?}: {got}, expected {d}",
                    p[i], p[j]
                ));
            }
            if got != m[(j, i)] {
                return Err(format!(
                    "entries ({i},{j}) and ({j},{i}) differ: {got} {}",
                    m[(j, i)]
                ));
            }
            if got != seq[(i, j)] {
                return Err(format!(
                    "entry ({i},{j}): {got} but the sequential constructor gives {}",
                    seq[(i, j)]
                ));
            }
        }
    }
    if !m.is_metric() {
        return Err("the matrix does not pass the metric check".into());
    }
    Ok(())
}
