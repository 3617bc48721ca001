//! C16: permutation and prefix enumeration.
use hx::*;
use std::collections::BTreeSet;
use walky::solvers::exact::*;

/// sorted arrangement with the given multiplicities
fn sorted<T: Clone>(items: &[T], mult: &[usize]) -> Vec<T> {
    mult.iter()
        .enumerate()
        .flat_map(|(i, &m)| std::iter::repeat_n(items[i].clone(), m))
        .collect()
}
fn compositions(n: usize, parts: usize) -> Vec<Vec<usize>> {
    if parts == 0 {
        return if n == 0 { vec![vec![]] } else { vec![] };
    }
    let mut out = vec![];
    for k in 0..=n {
        for mut r in compositions(n - k, parts - 1) {
            r.insert(0, k);
            out.push(r);
        }
    }
    out
}
fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}
fn walk<T: Ord + Clone + std::fmt::Debug>(c: &mut Ctx, items: &[T], mult: &[usize]) {
    let start = sorted(items, mult);
    let n = start.len();
    let want = mult.iter().fold(fact(n), |a, &m| a / fact(m));
    let mut a = start.clone();
    let mut count = 1u64;
    loop {
        let before = a.clone();
        let r = guard(|| {
            let mut x = before.clone();
            let r = next_permutation(&mut x);
            (r, x)
        });
        let (more, after) = match r {
            Err(e) => return c.fail("panic", format!("next_permutation({before:?}): {e}")),
            Ok(x) => x,
        };
        c.count("steps", 1);
        if !more {
            if after != before {
                c.fail(
                    "end-changes",
                    format!("the last arrangement {before:?} became {after:?}"),
                );
            }
            if before.windows(2).any(|w| w[0] < w[1]) {
                c.fail(
                    "early-end",
                    format!("{before:?} reported as the last arrangement"),
                );
            }
            break;
        }
        // lexicographic successor, found independently
        let mut idx: Vec<T> = before.clone();
        let i = (1..n).rev().find(|&i| idx[i - 1] < idx[i]);
        let Some(i) = i else {
            return c.fail(
                "no-end",
                format!("{before:?} is the last arrangement but {after:?} followed"),
            );
        };
        let j = (i..n).rev().find(|&j| idx[j] > idx[i - 1]).unwrap();
        idx.swap(i - 1, j);
        idx[i..].sort();
        if idx != after {
            c.fail(
                "successor",
                format!("after {before:?} comes {idx:?}, got {after:?}"),
            );
        }
        mcrt::drv::distinct(mcrt::fx::bytes(n as u64, format!("{after:?}").as_bytes()));
        a = after;
        count += 1;
        if count > want {
            return c.fail(
                "too-many",
                format!("more than {want} arrangements of {start:?}"),
            );
        }
    }
    if count != want {
        c.fail(
            "count",
            format!("{count} of {want} arrangements of {start:?}"),
        );
    }
}

fn digits(mut v: usize, base: usize, len: usize) -> Vec<usize> {
    let mut d = vec![0; len];
    for x in d.iter_mut().rev() {
        *x = v % base;
        v /= base;
    }
    d
}

fn main() {
    let mut s = Spec::new("C16", Level::ModelChecking);
    s.rule = "the state space of each stepping function: all arrangements of every multiset of up to n items (numbers, \
              text, pairs, reversed order), all digit strings of every base and length within bounds; every state is \
              visited and its successor compared with an independently computed one; every split of the prefix space \
              among every number of workers"
        .into();
    let t = mcrt::drv::tier() == Tier::Thorough;
    let top = if t { 9 } else { 8 };
    for n in 0..=top {
        for parts in 1..=n.max(1) {
            s.unit(format!("arrangements-{n}-{parts}"), move |c| {
                for mult in compositions(n, parts) {
                    if mult.contains(&0) {
                        continue;
                    }
                    c.begin(
                        "arrangements of multiplicities",
                        &mult.iter().map(|&x| x as f64).collect::<Vec<_>>(),
                    );
                    c.count("mc_states", mult.iter().fold(fact(n), |a, &m| a / fact(m)));
                    let items: Vec<usize> = (0..parts).map(|x| x * 3).collect();
                    walk(c, &items, &mult);
                    if n <= 6 {
                        let it: Vec<String> = (0..parts)
                            .map(|x| format!("{}", (b'a' + x as u8) as char))
                            .collect();
                        walk(c, &it, &mult);
                        let it: Vec<std::cmp::Reverse<i64>> = (0..parts)
                            .map(|x| std::cmp::Reverse(-(x as i64) * 7))
                            .collect();
                        walk(c, &it, &mult);
                        let it: Vec<(u8, i8)> = (0..parts)
                            .map(|x| ((x / 2) as u8, (x % 2) as i8 - 1))
                            .collect();
                        walk(c, &it, &mult);
                        let it: Vec<u8> = (0..parts).map(|x| (255 - parts + x) as u8).collect();
                        walk(c, &it, &mult);
                    }
                }
                let k = c.case();
                c.sample(|| k);
            });
        }
    }
    s.unit("prefixes", move |c| {
        for len in 1..=if t { 6 } else { 4 } {
            for base in 1..=if len <= 3 { 24 } else { 9 } {
                let total = (base as usize).pow(len as u32);
                c.begin("digit strings: length, base", &[len as f64, base as f64]);
                for v in 0..total {
                    c.count("mc_states", 1);
                    c.count("transitions", 1);
                    c.count("executions", 1);
                    let d = digits(v, base, len);
                    let mut x = d.clone();
                    let r = match guard(|| get_next_value(&mut x, base)) {
                        Err(e) => {
                            return c.fail(
                                "prefix-panic",
                                format!("get_next_value({d:?}, {base}): {e}"),
                            )
                        }
                        Ok(r) => r,
                    };
                    if v + 1 == total {
                        if let Some(y) = r {
                            c.fail(
                                "prefix-no-end",
                                format!("{d:?} is the last one in base {base} but {y:?} followed"),
                            );
                        }
                    } else {
                        let want = digits(v + 1, base, len);
                        if r.as_deref() != Some(&want[..]) {
                            c.fail(
                                "prefix-successor",
                                format!("after {d:?} in base {base} comes {want:?}, got {r:?}"),
                            );
                        }
                        if x != want {
                            c.fail(
                                "prefix-in-place",
                                format!("after {d:?} in base {base} the digits became {x:?}"),
                            );
                        }
                    }
                }
            }
        }
    });
    s.unit("walks", move |c| {
        // stepping from 0..0: the whole walk, by its own successor
        for (len, base) in [
            (1, 1),
            (1, 7),
            (2, 5),
            (3, 4),
            (3, 10),
            (4, 6),
            (5, 3),
            (6, 2),
        ] {
            c.begin("walk: length, base", &[len as f64, base as f64]);
            let mut d = vec![0; len];
            let mut seen = BTreeSet::from([d.clone()]);
            let total = (base as usize).pow(len as u32);
            for _ in 0..total + 2 {
                c.count("transitions", 1);
                match guard(|| get_next_value(&mut d, base)) {
                    Err(e) => return c.fail("prefix-panic", e),
                    Ok(None) => break,
                    Ok(Some(v)) => {
                        if !seen.insert(v.clone()) {
                            c.fail("prefix-repeat", format!("{v:?} came twice"));
                        }
                        if v != d {
                            c.fail(
                                "prefix-in-place",
                                format!("returned {v:?}, digits are {d:?}"),
                            );
                        }
                    }
                }
            }
            if seen.len() != total {
                c.fail(
                    "prefix-count",
                    format!(
                        "{} of {total} strings of {len} digits in base {base}",
                        seen.len()
                    ),
                );
            }
        }
    });
    s.unit("chunks", move |c| {
        for len in 1..=if t { 4 } else { 3 } {
            for base in 1..=if t { 16 } else { 12 } {
                let total = (base as usize).pow(len as u32);
                for n in 1..=total.min(if t { 600 } else { 200 }) {
                    c.begin("chunks: digits, base, workers", &[len as f64, base as f64, n as f64]);
                    mcrt::drv::distinct((len * 1000 + base) as u64 * 10000 + n as u64);
                    let mut covered = vec![0u8; total];
                    let mut prev_max: Option<Vec<usize>> = None;
                    for k in 0..n {
                        c.count("transitions", 1);
                        c.count("mc_states", 1);
                        let (lo, hi) = match guard(|| split_up_b_ary_number_into_n_chunks(len, base, n, k)) {
                            Err(e) => return c.fail("chunk-panic", format!("chunk {k} of {n}: {e}")),
                            Ok(x) => x,
                        };
                        for d in [&lo, &hi] {
                            // the exclusive end of the last chunk may be written with one digit value more
                            if d.len() < len || d.iter().any(|&x| x > base) {
                                return c.fail("chunk-digits", format!("chunk {k} of {n}: {lo:?}..{hi:?}"));
                            }
                        }
                        match &prev_max {
                            None => {
                                if lo.iter().any(|&x| x != 0) {
                                    return c.fail("chunk-start", format!("the first of {n} chunks starts at {lo:?}"));
                                }
                            }
                            Some(p) => {
                                if *p != lo {
                                    return c.fail("chunk-gap", format!("chunk {k} of {n} starts at {lo:?}, the one before ends at {p:?}"));
                                }
                            }
                        }
                        // walk the chunk the way its users do: step until the end is met or the digits overflow
                        let mut cur = lo.clone();
                        let mut steps = 0usize;
                        let val = |d: &[usize]| d.iter().fold(0usize, |a, &x| a * base + x);
                        {
                            loop {
                                let v = val(&cur);
                                if v >= total {
                                    break;
                                }
                                covered[v] += 1;
                                steps += 1;
                                let mut x = cur.clone();
                                match guard(|| get_next_value(&mut x, base)) {
                                    Err(e) => return c.fail("prefix-panic", e),
                                    Ok(None) => break,
                                    Ok(Some(v)) if v == hi => break,
                                    Ok(Some(v)) => cur = v,
                                }
                                if steps > total {
                                    return c.fail("chunk-endless", format!("chunk {k} of {n} does not end: {lo:?}..{hi:?}"));
                                }
                            }
                        }
                        prev_max = Some(hi);
                    }
                    if let Some(v) = covered.iter().position(|&x| x != 1) {
                        return c.fail(
                            "chunk-cover",
                            format!("{n} chunks of {len} digits in base {base} cover {:?} {} times", digits(v, base, len), covered[v]),
                        );
                    }
                    c.count("executions", 1);
                }
            }
        }
        c.sample(|| "all (digits, base, workers) with digits <= 3, base <= 12, workers <= min(base^digits, 200)".into());
    });
    mcrt::drv::main(s)
}
