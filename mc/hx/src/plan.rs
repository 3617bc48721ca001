//! Which instances a check evaluates.
use crate::fam::*;
use mcrt::drv::{Ctx, Spec};
use std::rc::Rc;

pub type Check = Rc<dyn Fn(&mut Ctx, &str, usize, &[f64])>;

#[derive(Default)]
pub struct Plan {
    /// every weighting of the complete graph over an alphabet
    pub full: Vec<(usize, Alpha)>,
    /// every renumbering of every structured instance
    pub relabel: Vec<usize>,
    /// structured instances as they are, and with the cities reversed
    pub plain: Vec<usize>,
    /// every renumbering of the named structured instances
    pub relabel_named: Vec<(usize, &'static [&'static str])>,
    /// polynomial residue families: size, number of instances
    pub residues: Vec<(usize, usize)>,
    /// powers of two with polynomial exponents: size, number of instances (never metric enough to matter there)
    pub powers: Vec<(usize, usize)>,
    /// every Hamiltonian cycle as the cheap tour hidden in every structured instance
    pub hidden: Vec<usize>,
    /// every graph on n vertices up to renumbering: cost of its edges, of the others, and a perturbation
    pub graphs: Vec<(usize, f64, f64, f64)>,
    /// every pair of edges of every structured instance changed to extreme values
    pub pairs: Vec<usize>,
    /// keep only instances that satisfy the triangle inequality exactly
    pub metric: bool,
    /// instances per unit
    pub chunk: u64,
}

pub fn hash_instance(n: usize, w: &[f64]) -> u64 {
    let mut h = mcrt::fx::mix(0x57, n as u64);
    for x in w {
        h = mcrt::fx::mix(h, x.to_bits());
    }
    h
}

/// residue instances number `k`, deterministic in k
pub fn residue_k(n: usize, k: usize) -> Vec<f64> {
    const P: [u64; 6] = [7, 11, 13, 29, 101, 1009];
    let p = P[k % 6];
    let (a, b, c) = (
        (k / 6) as u64 % 5 + 1,
        (k / 30) as u64 % 4,
        (k / 120) as u64 % 3 + (k % 3) as u64,
    );
    // offsets: 0 (non-metric), p (always metric), a fractional one
    match k % 4 {
        0 => residue(n, a, b, c, p, 1.0, 0.0),
        1 => residue(n, a, b, c, p, 1.0, p as f64),
        2 => residue(n, a, b, c, p, 8.0, 0.25),
        _ => residue(n, a, b, c, p, 10.0, 0.0),
    }
}

/// power-of-two instances number `k`, deterministic in k; sums are exact
pub fn powers_k(n: usize, k: usize) -> Vec<f64> {
    const P: [u64; 5] = [11, 13, 29, 101, 1009];
    let k = k as u64;
    let p = P[(k % 5) as usize];
    let (a, b, c, d) = (k / 5 % 7 + 1, k / 35 % 5, k / 175 % 3 + k % 4, k / 525 + 1);
    upper(n, |i, j| {
        let (i, j) = (i as u64 + 1, j as u64 + 1);
        let x = a * i * j + b * (i + j) + c * (i * i + j * j) + d * i * i * j * j;
        2f64.powi((x % p % 8) as i32)
    })
}

impl Plan {
    pub fn add(self, spec: &mut Spec, prefix: &'static str, f: Check) {
        let metric_only = self.metric;
        let chunk = if self.chunk == 0 { 4096 } else { self.chunk };
        let one = {
            let f = f.clone();
            move |c: &mut Ctx, tag: &str, n: usize, w: &[f64]| {
                if metric_only && !crate::oracle::metric(n, w) {
                    c.count("skipped_not_metric", 1);
                    return;
                }
                if w.iter().any(|x| *x != w[0]) {
                    mcrt::drv::distinct(hash_instance(n, w));
                }
                c.begin(tag, w);
                f(c, tag, n, w);
            }
        };
        let one = Rc::new(one);
        type Kth = fn(usize, usize) -> Vec<f64>;
        let kth = (self
            .residues
            .into_iter()
            .rev()
            .map(|r| ("residues", residue_k as Kth, r)))
        .chain(
            self.powers
                .into_iter()
                .rev()
                .map(|r| ("powers", powers_k as Kth, r)),
        );
        for (kind, kth, (n, cnt)) in kth {
            let per = match n {
                0..=6 => 240,
                7 => 60,
                8 => 15,
                9 => 4,
                _ => 1,
            };
            let per = per.min(cnt).max(1);
            for p in 0..cnt.div_ceil(per) {
                let one = one.clone();
                spec.unit(format!("{prefix}{kind}-n{n}-{p}"), move |c| {
                    for k in p * per..cnt.min((p + 1) * per) {
                        let w = kth(n, k);
                        one(c, &format!("{prefix}{kind} instance {k} n={n}"), n, &w);
                    }
                    c.sample(|| {
                        format!(
                            "n={n} {kind} instances {}..{}",
                            p * per,
                            cnt.min((p + 1) * per)
                        )
                    });
                });
            }
        }
        for n in self.plain.into_iter().rev() {
            let parts = if n >= 8 || chunk <= 8 { structured(n).len() } else { 1 };
            for part in 0..parts {
                let one = one.clone();
                spec.unit(format!("{prefix}structured-n{n}-{part}"), move |c| {
                    for (k, s) in structured(n).into_iter().enumerate() {
                        if k % parts != part || metric_only && !s.metric {
                            continue;
                        }
                        let rev = upper(n, |i, j| s.w[crate::oracle::tri(n, n - 1 - i, n - 1 - j)]);
                        one(c, &s.name, n, &s.w);
                        one(c, &s.name, n, &rev);
                    }
                });
            }
        }
        for (n, a) in self.full {
            let parts = total(n, a.v).div_ceil(chunk).max(1);
            for p in 0..parts {
                let one = one.clone();
                spec.unit(format!("{prefix}all-{}-n{n}-{p}", a.name), move |c| {
                    let tag = format!("{prefix}all weightings over {} n={n}", a.name);
                    weightings(n, a.v, p, parts, |w| one(c, &tag, n, w));
                    c.sample(|| format!("{tag}: alphabet {:?}, part {p} of {parts}", a.v));
                });
            }
        }
        for (n, yes, no, step) in self.graphs {
            let parts = (graphs(n).len() / 512).max(1);
            for p in 0..parts {
                let one = one.clone();
                spec.unit(format!("{prefix}graphs{n}-{yes}-{no}-{step}-{p}"), move |c| {
                    for (k, g) in graphs(n).into_iter().enumerate() {
                        if k % parts == p {
                            let w = two_valued(n, g, yes, no, step);
                            one(c, &format!("{prefix}graph {k} n={n} ({yes} on its edges, {no} elsewhere)"), n, &w);
                        }
                    }
                    c.sample(|| format!("every {parts}th graph on {n} vertices: {yes} on its edges, {no} elsewhere, steps of {step}"));
                });
            }
        }
        for n in self.hidden {
            for s in structured(n) {
                let one = one.clone();
                spec.unit(format!("{prefix}hidden-{}", s.name), move |c| {
                    let mut p: Vec<usize> = (0..n).collect();
                    let mut first = None;
                    loop {
                        // each cycle once: it starts at 0 and its second city is below its last one
                        if p[1] < p[n - 1] {
                            let mut w: Vec<f64> = s.w.iter().map(|x| x * 1.5 + 1.0).collect();
                            for (k, v) in p.iter().enumerate() {
                                let e = crate::oracle::tri(n, *v, p[(k + 1) % n]);
                                w[e] = 0.5 + (k % 3) as f64 * 0.25 + s.w[e] * 0.75;
                            }
                            first.get_or_insert_with(|| w.clone());
                            one(
                                c,
                                &format!("{prefix}cheap cycle {p:?} in {}", s.name),
                                n,
                                &w,
                            );
                        }
                        if !next_arrangement(&mut p[1..]) {
                            break;
                        }
                    }
                    c.sample(|| format!("every cycle hidden in {}: e.g. {first:?}", s.name));
                });
            }
        }
        for n in self.pairs {
            for s in structured(n) {
                let one = one.clone();
                spec.unit(format!("{prefix}pairs-{}", s.name), move |c| {
                    let top = s.w.iter().cloned().fold(0.0, f64::max);
                    let low = s.w.iter().cloned().fold(f64::INFINITY, f64::min) / 2.0;
                    for e in 0..edges(n) {
                        for f in e + 1..edges(n) {
                            for (x, y) in [
                                (low, low),
                                (low, 3.0 * top),
                                (3.0 * top, low),
                                (3.0 * top, 3.0 * top),
                            ] {
                                let mut w = s.w.clone();
                                (w[e], w[f]) = (x, y);
                                one(
                                    c,
                                    &format!("{prefix}edges {e}, {f} of {} changed", s.name),
                                    n,
                                    &w,
                                );
                            }
                        }
                    }
                    c.sample(|| {
                        format!(
                            "every pair of edges of {} changed to {low} or {}",
                            s.name,
                            3.0 * top
                        )
                    });
                });
            }
        }
        let all = self.relabel.into_iter().map(|n| (n, None));
        let some = self.relabel_named.into_iter().map(|(n, k)| (n, Some(k)));
        for (n, names) in all.chain(some) {
            let f: u64 = (1..=n as u64).product();
            let parts = f.div_ceil(chunk).max(1);
            for s in structured(n) {
                if metric_only && !s.metric
                    || names.is_some_and(|k| !k.iter().any(|x| format!("{x}{n}") == s.name))
                {
                    continue;
                }
                for p in 0..parts {
                    let one = one.clone();
                    let (name, w) = (s.name.clone(), s.w.clone());
                    spec.unit(format!("{prefix}renumber-{name}-{p}"), move |c| {
                        let tag = format!("{prefix}renumberings of {name}");
                        let mut first = None;
                        relabelings(n, &w, p as usize, parts as usize, |_, v| {
                            first.get_or_insert_with(|| v.to_vec());
                            one(c, &tag, n, v)
                        });
                        c.sample(|| format!("{tag}: e.g. {:?}", first));
                    });
                }
            }
        }
    }
}
