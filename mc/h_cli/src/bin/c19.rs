//! C19: the instance generator.
use hx::*;
use std::process::{Command, Stdio};
use walky::datastructures::{AdjacencyMatrix, NAMatrix};
use walky::parser::TravellingSalesmanProblemInstance as T;

/// draws in units of 2^-53: corners, the centre, a point very close to it, a coordinate of no short decimal form
const DRAWS: [u64; 6] = [0, 1 << 52, (1 << 52) + (1 << 13), 1 << 51, (1 << 53) - (1 << 33), 3 << 50];

struct Run {
    status: Option<i32>,
    out: String,
    arities: Vec<usize>,
}
fn generate(c: &mut Ctx, args: &[String], script: &[usize], draws: &[u64], log: &std::path::Path) -> Run {
    let exe = std::env::current_exe().unwrap().with_file_name("gen_cli");
    let list = |v: &mut dyn Iterator<Item = u64>| v.map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let _ = std::fs::remove_file(log);
    let r = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .env("MC_SCRIPT", list(&mut script.iter().map(|&x| x as u64)))
        .env("MC_FLOATS", list(&mut draws.iter().copied()))
        .env("MC_LOG", log)
        .output();
    mcrt::drv::heartbeat();
    c.count("executions", 1);
    let r = r.unwrap_or_else(|e| mcrt::choice::machinery_error(&format!("cannot start the generator: {e}")));
    if r.status.code() == Some(99) {
        mcrt::choice::machinery_error("the generator's choices do not replay");
    }
    let arities = std::fs::read_to_string(log).unwrap_or_default();
    Run {
        status: r.status.code(),
        out: String::from_utf8_lossy(&r.stdout).into_owned(),
        arities: arities.split(',').filter_map(|x| x.parse().ok()).collect(),
    }
}
fn coordinate(d: u64) -> f64 {
    d as f64 / (1u64 << 53) as f64 * 20.0 - 10.0
}
fn near(a: f64, b: f64) -> bool {
    // a few units in the last place: the formula may be evaluated in another order
    (a - b).abs() <= 4.0 * f64::EPSILON * b.abs() && (b != 0.0 || a == 0.0)
}
fn judge(n: usize, r: &Run, points: &[(f64, f64)]) -> Result<(), String> {
    if r.status != Some(0) {
        return Err(format!("exit status {:?}", r.status));
    }
    let t = match guard(|| T::parse_from_xml(&r.out)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(format!("the document is rejected: {e:?}")),
        Err(e) => return Err(format!("the document is rejected: {e}")),
    };
    if t.graph.num_vertices() != n {
        return Err(format!("{} cities in the document", t.graph.num_vertices()));
    }
    let m: NAMatrix = guard(|| (&t.graph).into())?;
    for i in 0..n {
        for j in 0..n {
            let d = ((points[i].0 - points[j].0).powi(2) + (points[i].1 - points[j].1).powi(2)).sqrt();
            let got = m.get(i, j);
            if i != j && !near(got, d) {
                return Err(format!("points {:?} and {:?} have distance {d:?}, the document says {got:?}", points[i], points[j]));
            }
        }
    }
    Ok(())
}
fn main() {
    let mut s = Spec::new("C19", Level::ModelChecking);
    s.rule = "numbers of cities and, for few cities, every outcome of every random draw over a set of draws (corners, centre, \
              nearly coinciding and exactly coinciding points; all exactly representable coordinates); for more cities a bounded \
              number of draws that differ from a fixed assignment; every document is read back with the solver's parser"
        .into();
    s.assumptions = vec![
        "a drawn point has the coordinates 20 r - 10 for the two draws r made for it, x first (either order is tried)".into(),
        "distances may differ from the reference formula by four units in the last place".into(),
        "at least two cities".into(),
    ];
    let t = mcrt::drv::tier() == Tier::Thorough;
    // (cities, number of different draws, alternatives used at most per run)
    let mut plans = vec![(2usize, 6usize, usize::MAX), (3, 3, usize::MAX), (4, 2, usize::MAX), (4, 6, 2), (6, 5, 2), (9, 4, 1), (12, 3, 1), (33, 2, 0), (65, 2, 0), (101, 6, 0)];
    if t {
        plans = vec![(2, 6, usize::MAX), (3, 5, usize::MAX), (4, 3, usize::MAX), (5, 2, usize::MAX), (6, 2, usize::MAX), (6, 6, 3), (9, 5, 2), (12, 6, 2), (20, 4, 1), (33, 3, 1), (65, 6, 0), (101, 6, 0), (200, 6, 0)];
    }
    for (n, k, budget) in plans {
        let parts = if budget == 0 { 1 } else { k };
        for part in 0..parts {
            s.unit(format!("cities-{n}-{k}-{budget}-{part}"), move |c| {
                let log = std::env::temp_dir().join(format!("c19-{}-{n}-{k}-{part}.log", std::process::id()));
                let draws = &DRAWS[..k];
                // the fixed assignment: all draws in turn; alternatives are counted from there
                let base = |p: usize| if budget >= 2 * n { 0 } else { (p * p + p / 3) % k };
                let mut dev = vec![0usize; 2 * n];
                if budget > 0 {
                    dev[0] = part;
                }
                loop {
                    let script: Vec<usize> = (0..2 * n).map(|p| (base(p) + dev[p]) % k).collect();
                    let w: Vec<f64> = script.iter().map(|&x| coordinate(draws[x])).collect();
                    c.begin("generator: coordinates", &w);
                    mcrt::drv::distinct(mcrt::fx::bytes(n as u64, format!("{w:?}").as_bytes()));
                    let r = generate(c, &[n.to_string()], &script, draws, &log);
                    c.count("mc_states", r.arities.len() as u64);
                    c.count("transitions", r.arities.len() as u64);
                    let res = if r.status == Some(0) && (r.arities.len() != 2 * n || r.arities.iter().any(|&a| a != k)) {
                        Err(format!("{} draws for {n} cities: {:?}", r.arities.len(), r.arities.iter().take(8).collect::<Vec<_>>()))
                    } else {
                        let a: Vec<(f64, f64)> = w.chunks(2).map(|p| (p[0], p[1])).collect();
                        judge(n, &r, &a).or_else(|e| {
                            // all first coordinates before all second ones
                            let b: Vec<(f64, f64)> = (0..n).map(|i| (w[i], w[n + i])).collect();
                            judge(n, &r, &b).map_err(|_| e)
                        })
                    };
                    if let Err(e) = res {
                        c.fail("document", format!("{n} cities: {e}"));
                    }
                    // next assignment with at most `budget` deviations (the first draw is fixed per unit)
                    let mut p = 2 * n;
                    loop {
                        if p == 1 || budget == 0 {
                            p = 0;
                            break;
                        }
                        p -= 1;
                        dev[p] += 1;
                        if dev[p] == k {
                            dev[p] = 0;
                        } else if dev[1..].iter().filter(|x| **x != 0).count() <= budget {
                            break;
                        } else {
                            dev[p] = 0;
                        }
                    }
                    if p == 0 {
                        break;
                    }
                }
                let _ = std::fs::remove_file(&log);
                c.sample(|| format!("{n} cities, draws {:?}, at most {budget} deviations from the fixed assignment", draws.iter().map(|&d| coordinate(d)).collect::<Vec<_>>()));
            });
        }
    }
    // every size
    s.unit("sizes", move |c| {
        let log = std::env::temp_dir().join(format!("c19-{}-sizes.log", std::process::id()));
        for n in 2..=if t { 130usize } else { 70 } {
            let script: Vec<usize> = (0..2 * n).map(|p| (p * 5 + p * p / 7) % 6).collect();
            let w: Vec<f64> = script.iter().map(|&x| coordinate(DRAWS[x])).collect();
            c.begin("generator: sizes", &[n as f64]);
            mcrt::drv::distinct(n as u64);
            let r = generate(c, &[n.to_string()], &script, &DRAWS, &log);
            let a: Vec<(f64, f64)> = w.chunks(2).map(|p| (p[0], p[1])).collect();
            let b: Vec<(f64, f64)> = (0..n).map(|i| (w[i], w[n + i])).collect();
            if let Err(e) = judge(n, &r, &a).or_else(|e| judge(n, &r, &b).map_err(|_| e)) {
                c.fail("document", format!("{n} cities: {e}"));
            }
        }
        let _ = std::fs::remove_file(&log);
    });
    mcrt::drv::main(s)
}
