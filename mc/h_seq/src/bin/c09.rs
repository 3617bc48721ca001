//! C09: which documents are accepted.
use hx::*;
use walky::parser::TravellingSalesmanProblemInstance as T;

fn fmt(v: f64) -> String {
    format!("{v}")
}
fn text(rows: &[Vec<(f64, usize)>]) -> String {
    Doc::new(
        rows.iter()
            .map(|r| r.iter().map(|e| (fmt(e.0), e.1.to_string())).collect())
            .collect(),
    )
    .text()
}
fn accepted(x: &str) -> bool {
    matches!(guard(|| T::parse_from_xml(x)), Ok(Ok(_)))
}
fn check(c: &mut Ctx, what: &str, rows: &[Vec<(f64, usize)>]) {
    let x = text(rows);
    let want = valid_rows(rows);
    let got = accepted(&x);
    c.count(
        if want {
            "valid_documents"
        } else {
            "invalid_documents"
        },
        1,
    );
    mcrt::drv::distinct(mcrt::fx::bytes(11, x.as_bytes()));
    if want != got {
        c.begin(what, &[]);
        let shown: String = format!("{rows:?}").chars().take(500).collect();
        if want {
            c.fail(
                "rejected",
                format!("{what}: a complete simple undirected graph was rejected: {shown}"),
            );
        } else {
            c.fail(
                "accepted",
                format!(
                    "{what}: accepted although not a complete simple undirected graph: {shown}"
                ),
            );
        }
    }
}
/// all lists of up to `max` edges
fn lists(max: usize, targets: usize, costs: &[f64]) -> Vec<Vec<(f64, usize)>> {
    let mut out = vec![vec![]];
    let mut layer: Vec<Vec<(f64, usize)>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for l in &layer {
            for t in 0..targets {
                for &c in costs {
                    let mut x = l.clone();
                    x.push((c, t));
                    next.push(x);
                }
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}
fn valid(n: usize, k: usize) -> Vec<Vec<(f64, usize)>> {
    let w = residue_k(n, k);
    (0..n)
        .map(|i| {
            let mut r: Vec<(f64, usize)> = (0..n)
                .filter(|&j| j != i)
                .map(|j| (wt(n, &w, i, j) + 0.5, j))
                .collect();
            // not in ascending order of targets
            if k % 2 == 1 {
                r.rotate_left(i % (n - 1));
            }
            r
        })
        .collect()
}
fn mutations(rows: &[Vec<(f64, usize)>]) -> Vec<(String, Vec<Vec<(f64, usize)>>)> {
    let n = rows.len();
    let mut out = vec![];
    for i in 0..n {
        for e in 0..rows[i].len() {
            let mut edit = |name: &str, f: &dyn Fn(&mut Vec<(f64, usize)>)| {
                let mut m = rows.to_vec();
                f(&mut m[i]);
                out.push((format!("{name} at city {i} edge {e}"), m));
            };
            edit("edge removed", &|r| {
                r.remove(e);
            });
            edit("edge doubled", &|r| {
                let x = r[e];
                r.push(x)
            });
            edit("self-loop added", &|r| r.insert(e, (1.0, i)));
            for t in (0..=n).chain([n + 7, usize::MAX / 2, 1 << 32]) {
                if t != rows[i][e].1 {
                    edit(&format!("retargeted to {t}"), &|r| r[e].1 = t);
                }
            }
            edit("cost changed", &|r| r[e].0 += 1.0);
            edit("cost changed in the last place", &|r| {
                r[e].0 = f64::from_bits(r[e].0.to_bits() + 1)
            });
            edit("cost negated", &|r| r[e].0 = -r[e].0);
            edit("cost halved", &|r| r[e].0 *= 0.5);
            edit("cost not a number", &|r| r[e].0 = f64::NAN);
        }
    }
    // whole cities
    for i in 0..n {
        let mut m = rows.to_vec();
        m.remove(i);
        if m.len() >= 2 {
            out.push((format!("city {i} left out"), m));
        }
        let mut m = rows.to_vec();
        m.push(rows[i].clone());
        out.push((format!("city {i} doubled"), m));
        let mut m = rows.to_vec();
        m[i].clear();
        out.push((format!("city {i} without edges"), m));
        let mut m = rows.to_vec();
        for r in m.iter_mut() {
            r.retain(|e| e.1 != i);
        }
        out.push((format!("nothing leads to city {i}"), m));
    }
    out
}

fn main() {
    let mut s = Spec::new("C09", Level::Exploration);
    s.rule = "every document with two cities (up to three edges per city, all targets incl. a non-existent one, two costs) \
              and with three cities (up to two edges per city); every single change (and pairs of changes for small \
              sizes) of valid documents with up to twelve cities; every truncation and every removal of a required part \
              of a document; reading must succeed exactly for complete simple undirected graphs; distinct: different documents"
        .into();
    s.assumptions = vec![
        "a document counts as rejected when reading reports an error or panics".into(),
        "at least two cities".into(),
    ];
    let t = mcrt::drv::tier() == Tier::Thorough;
    s.unit("two-cities", move |c| {
        let l = lists(if t { 4 } else { 3 }, 3, &[1.0, 2.0]);
        c.begin("all documents with two cities", &[]);
        for a in &l {
            for b in &l {
                if a.len() + b.len() <= if t { 5 } else { 6 } {
                    c.count("evaluations", 1);
                    check(c, "two cities", &[a.clone(), b.clone()]);
                }
            }
            mcrt::drv::heartbeat();
        }
        c.sample(|| format!("two cities, {} edge lists each", l.len()));
    });
    let l3 = lists(2, 4, &[1.0, 2.0]);
    for k in 0..l3.len() {
        let l3 = l3.clone();
        s.unit(format!("three-cities-{k}"), move |c| {
            c.begin("all documents with three cities", &[]);
            for a in &l3 {
                for b in &l3 {
                    c.count("evaluations", 1);
                    check(c, "three cities", &[l3[k].clone(), a.clone(), b.clone()]);
                }
                mcrt::drv::heartbeat();
            }
        });
    }
    if t {
        let l = lists(3, 4, &[1.0]);
        for k in 0..l.len() {
            let l = l.clone();
            s.unit(format!("three-cities-long-{k}"), move |c| {
                c.begin(
                    "all documents with three cities, up to three edges each",
                    &[],
                );
                for a in &l {
                    for b in &l {
                        c.count("evaluations", 1);
                        check(c, "three cities", &[l[k].clone(), a.clone(), b.clone()]);
                    }
                    mcrt::drv::heartbeat();
                }
            });
        }
    }
    for n in [16usize, 20, 32, 33, 64, 65, 100, 129, 257] {
        s.unit(format!("large-{n}"), move |c| {
            let rows = valid(n, 3);
            c.begin("large valid document and single changes", &[n as f64]);
            c.count("evaluations", 1);
            check(c, "unchanged", &rows);
            let mut some: Vec<usize> = vec![0, 1, n / 2, 31, 32, 63, 64, n - 2, n - 1];
            if n > 130 {
                some = vec![0, n - 1];
            }
            some.retain(|&i| i < n);
            for &i in &some {
                for &j in &some {
                    let Some(e) = rows[i].iter().position(|x| x.1 == j) else {
                        continue;
                    };
                    let mut edit = |what: &str, f: &dyn Fn(&mut Vec<(f64, usize)>)| {
                        let mut m = rows.clone();
                        f(&mut m[i]);
                        c.count("evaluations", 1);
                        check(c, &format!("{what} at city {i}, edge to {j}"), &m);
                    };
                    edit("edge removed", &|r| {
                        r.remove(e);
                    });
                    edit("edge doubled", &|r| {
                        let x = r[e];
                        r.push(x)
                    });
                    edit("self-loop added", &|r| r.push((1.0, i)));
                    edit("turned into a self-loop", &|r| r[e].1 = i);
                    edit("retargeted to a neighbour", &|r| {
                        r[e].1 = r[(e + 1) % r.len()].1
                    });
                    edit("retargeted to nowhere", &|r| r[e].1 = n);
                    edit("cost changed in the last place", &|r| {
                        r[e].0 = f64::from_bits(r[e].0.to_bits() + 1)
                    });
                    edit("cost changed", &|r| r[e].0 += 1.0);
                    mcrt::drv::heartbeat();
                }
            }
        });
    }
    for n in 2..=12usize {
        for k in 0..if n <= 6 { 8 } else { 3 } {
            s.unit(format!("changes-{n}-{k}"), move |c| {
                let rows = valid(n, k);
                c.begin(
                    "valid document and its single changes",
                    &[n as f64, k as f64],
                );
                c.count("evaluations", 1);
                check(c, "unchanged", &rows);
                let ms = mutations(&rows);
                for (what, m) in &ms {
                    c.count("evaluations", 1);
                    check(c, what, m);
                    mcrt::drv::heartbeat();
                }
                c.sample(|| format!("n={n}: {} changes, e.g. {}", ms.len(), ms[ms.len() / 2].0));
                // pairs of changes: a second one may hide the first
                if n <= if t { 5 } else { 4 } && k < 2 {
                    for (a, m) in &ms {
                        if m.iter().any(|r| r.is_empty()) || m.len() < 2 {
                            continue;
                        }
                        for (b, m2) in mutations(m) {
                            c.count("evaluations", 1);
                            check(c, &format!("{a}, then {b}"), &m2);
                            mcrt::drv::heartbeat();
                        }
                    }
                }
            });
        }
    }
    s.unit("torn", |c| {
        c.begin("truncated and incomplete documents", &[]);
        for n in [2usize, 3, 5] {
            let w = residue_k(n, 1);
            let d = doc_of(n, &w, fmt);
            let full = d.text();
            let end = full.find("</graph>").unwrap();
            c.count("evaluations", 1);
            if !accepted(&full) {
                c.fail("rejected", format!("valid document rejected: {full}"));
            }
            for k in 0..end {
                c.count("evaluations", 1);
                if full.is_char_boundary(k) && accepted(&full[..k]) {
                    c.fail(
                        "accepted-torn",
                        format!(
                            "document cut off after {k} bytes was accepted: {:?}",
                            &full[..k]
                        ),
                    );
                }
            }
            // each required part removed or replaced
            let parts = [
                "name",
                "source",
                "description",
                "doublePrecision",
                "ignoredDigits",
                "graph",
            ];
            for p in parts {
                let a = full.find(&format!("<{p}>")).unwrap();
                let b = full.find(&format!("</{p}>")).unwrap() + p.len() + 3;
                let gone = format!("{}{}", &full[..a], &full[b..]);
                let twice = format!("{}{}{}", &full[..b], &full[a..b], &full[b..]);
                for x in [gone, twice] {
                    c.count("evaluations", 1);
                    if accepted(&x) {
                        c.fail(
                            "accepted-part",
                            format!("accepted with <{p}> missing or doubled: {x}"),
                        );
                    }
                }
            }
            for bad in [
                "",
                "x",
                "-1",
                "1.5",
                "1e0",
                "0x1",
                "one",
                "18446744073709551616",
            ] {
                let mut d = doc_of(n, &w, fmt);
                d.rows[0][0].1 = bad.into();
                c.count("evaluations", 1);
                if accepted(&d.text()) {
                    c.fail("accepted-target", format!("target {bad:?} accepted"));
                }
            }
            for bad in ["", "x", "1,5", "0x1", "1 2", "--1", "1e", "e1"] {
                let mut d = doc_of(n, &w, fmt);
                d.rows[0][0].0 = bad.into();
                d.rows[1].iter_mut().find(|e| e.1 == "0").unwrap().0 = bad.into();
                d.rows[0].iter_mut().find(|e| e.1 == "1").unwrap().0 = bad.into();
                c.count("evaluations", 1);
                if accepted(&d.text()) {
                    c.fail("accepted-cost", format!("cost {bad:?} accepted"));
                }
            }
            let x = full.replace(" cost=\"", " price=\"");
            c.count("evaluations", 1);
            if accepted(&x) {
                c.fail(
                    "accepted-no-cost",
                    "edges without a cost accepted".to_string(),
                );
            }
        }
        for x in [
            "",
            " ",
            "<",
            "hello",
            "<a/>",
            "{}",
            "<travellingSalesmanProblemInstance/>",
        ] {
            c.count("evaluations", 1);
            if accepted(x) {
                c.fail("accepted-garbage", format!("{x:?} accepted"));
            }
        }
    });
    mcrt::drv::main(s)
}
