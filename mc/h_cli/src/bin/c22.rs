//! C22: the Python utilities (benchmark series, single instances, traces of the nearest-neighbour tour).
use hx::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use walky::datastructures::{AdjacencyMatrix, NAMatrix};
use walky::parser::TravellingSalesmanProblemInstance as T;

/// draws from [0, 1): corners, the centre, a point very close to it, coordinates of no short decimal form
const DRAWS: [f64; 6] = [0.0, 0.5, 0.5 + 1.0 / (1u64 << 40) as f64, 0.25, 1.0 - f64::EPSILON / 2.0, 1.0 / 3.0];

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    dir: std::path::PathBuf,
}
impl Worker {
    fn new(name: &str) -> Self {
        let dir = std::env::temp_dir().join(format!("c22-{}-{name}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        let fail = |e: std::io::Error| -> ! { mcrt::choice::machinery_error(&format!("cannot run the utilities: {e}")) };
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| fail(e));
        let mut child = Command::new("python3-vt")
            .arg(concat!(env!("CARGO_MANIFEST_DIR"), "/py/utils_worker.py"))
            .arg(concat!(env!("CARGO_MANIFEST_DIR"), "/../../../repo/utils"))
            .arg(&dir)
            .env("OPENBLAS_NUM_THREADS", "1")
            .env("OMP_NUM_THREADS", "1")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| fail(e));
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Worker { child, to, from, dir }
    }
    /// the answer, or what went wrong in the utility
    fn ask(&mut self, c: &mut Ctx, job: Value) -> Result<Value, String> {
        let mut line = String::new();
        let sent = writeln!(self.to, "{job}").and_then(|_| self.to.flush());
        let got = sent.and_then(|_| self.from.read_line(&mut line));
        mcrt::drv::heartbeat();
        c.count("executions", 1);
        let v: Value = match got {
            Ok(n) if n > 0 => serde_json::from_str(&line).unwrap_or_else(|e| mcrt::choice::machinery_error(&format!("answer of the worker: {e}: {line}"))),
            _ => mcrt::choice::machinery_error("the worker of the utilities ended"),
        };
        match v.get("error") {
            Some(e) => Err(format!("the utility fails: {}", e.as_str().unwrap_or("?"))),
            None => Ok(v),
        }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

type M = Vec<Vec<f64>>;

fn near(a: f64, b: f64) -> bool {
    // 16 significant digits, and the formula may be evaluated in another order
    (a - b).abs() <= 3e-15 * b.abs()
}
fn read_xml(text: &str) -> Result<M, String> {
    let t = match guard(|| T::parse_from_xml(text)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(format!("the document is rejected: {e:?}")),
        Err(e) => return Err(format!("the document is rejected: {e}")),
    };
    let n = t.graph.num_vertices();
    let m: NAMatrix = guard(|| (&t.graph).into())?;
    Ok((0..n).map(|i| (0..n).map(|j| if i == j { 0.0 } else { m.get(i, j) }).collect()).collect())
}
/// a floating-point literal of Rust
fn literal(s: &str) -> Option<f64> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r.trim()),
        None => (false, s),
    };
    let suffix = s.ends_with("f64");
    let body: String = s.trim_end_matches("f64").chars().filter(|c| *c != '_').collect();
    if !body.starts_with(|c: char| c.is_ascii_digit()) || !(suffix || body.contains(['.', 'e', 'E'])) {
        return None;
    }
    body.parse::<f64>().ok().map(|v| if neg { -v } else { v })
}
/// the graph literal in Rust code
fn read_rust(text: &str) -> Result<M, String> {
    let t: String = text.chars().filter(|c| !c.is_whitespace()).collect();
    let at = t.find("Graph{").ok_or("no graph in the output")?;
    let body = t[at..].strip_prefix("Graph{vertices:vec![").ok_or("the graph has no vertices")?;
    let end = body.find("]};").ok_or("the graph does not end")?;
    let mut lists: Vec<Vec<(usize, f64)>> = vec![];
    let mut rest = &body[..end];
    while let Some(r) = rest.strip_prefix("Vertex{edges:vec![") {
        let stop = r.find(']').ok_or("a list of edges does not end")?;
        let mut edges = vec![];
        let mut list = &r[..stop];
        while let Some(e) = list.strip_prefix("Edge{to:") {
            let stop = e.find('}').ok_or("an edge does not end")?;
            let (to, cost) = e[..stop].split_once(",cost:").ok_or("an edge has no cost")?;
            let cost = cost.trim_end_matches(',');
            edges.push((to.parse().map_err(|_| format!("city {to:?}"))?, literal(cost).ok_or(format!("{cost:?} is no floating-point literal"))?));
            list = e[stop + 1..].trim_start_matches(',');
        }
        if !list.is_empty() {
            return Err(format!("{list:?} in a list of edges"));
        }
        lists.push(edges);
        rest = r[stop + 1..].trim_start_matches(',').strip_prefix('}').ok_or("a vertex does not end")?.trim_start_matches(',');
    }
    if !rest.is_empty() {
        return Err(format!("{rest:?} in the list of vertices"));
    }
    let n = lists.len();
    let mut m = vec![vec![f64::NAN; n]; n];
    for (i, l) in lists.iter().enumerate() {
        m[i][i] = 0.0;
        for &(j, w) in l {
            if j >= n || j == i || !m[i][j].is_nan() {
                return Err(format!("edge from {i} to {j} of {n} cities"));
            }
            m[i][j] = w;
        }
    }
    for i in 0..n {
        for j in 0..n {
            if m[i][j].is_nan() {
                return Err(format!("no edge from {i} to {j}"));
            }
        }
    }
    Ok(m)
}
/// the matrix holds the distances of points drawn in some order
fn judge_points(m: &M, n: usize, w: &[f64], drawn: usize) -> Result<(), String> {
    if m.len() != n {
        return Err(format!("{} cities instead of {n}", m.len()));
    }
    for i in 0..n {
        for j in 0..n {
            if m[i][j] != m[j][i] || !m[i][j].is_finite() || m[i][j] < 0.0 {
                return Err(format!("costs {:?} and {:?} between {i} and {j}", m[i][j], m[j][i]));
            }
        }
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..if n > 40 { 0 } else { n } {
                if m[i][k] > (m[i][j] + m[j][k]) * (1.0 + 1e-14) {
                    return Err(format!("not metric: {i} {j} {k}"));
                }
            }
        }
    }
    if drawn != w.len() {
        // points made in some other way
        return Ok(());
    }
    let fits = |p: &dyn Fn(usize) -> (f64, f64)| {
        for i in 0..n {
            for j in 0..n {
                let (a, b) = (p(i), p(j));
                let d = (a.0 - b.0).hypot(a.1 - b.1);
                if i != j && !near(m[i][j], d) {
                    return Err(format!("points {a:?} and {b:?} have distance {d:?}, the output says {:?}", m[i][j]));
                }
            }
        }
        Ok(())
    };
    let r = w.len() / 2;
    fits(&|i| (w[2 * i], w[2 * i + 1])).or_else(|e| fits(&|i| (w[i], w[r + i])).map_err(|_| e))
}
fn files(v: &Value) -> BTreeMap<String, String> {
    v["files"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()
}
const BEFORE: [&[&str]; 4] = [&[], &["results/2.xml", "results/99.xml", "keep.txt"], &["results/old/3.xml", "results/3.xml"], &["2.xml", "other/2.xml"]];

fn series(c: &mut Ctx, k: &mut Worker, l: usize, r: usize, w: &[f64], before: usize) -> Result<(), String> {
    let old: BTreeMap<&str, &str> = BEFORE[before].iter().map(|f| (*f, "from before")).collect();
    let v = k.ask(c, json!({"kind": "main", "program": "benchmark_gen", "args": [l.to_string(), r.to_string()], "draws": w, "before": old}))?;
    if v["code"] != 0 {
        return Err(format!("exit status {}: {}", v["code"], v["why"]));
    }
    let drawn = v["drawn"].as_u64().unwrap() as usize;
    c.count("mc_states", drawn as u64);
    c.count("transitions", drawn as u64);
    let mut f = files(&v);
    for name in old.keys().filter(|f| !f.starts_with("results/")) {
        if f.remove(*name).as_deref() != Some("from before") {
            return Err(format!("{name}, no result, is changed"));
        }
    }
    let full = read_xml(f.get(&format!("results/{r}.xml")).ok_or("the largest instance is missing")?).map_err(|e| format!("{r}.xml: {e}"))?;
    judge_points(&full, r, w, drawn).map_err(|e| format!("{r}.xml: {e}"))?;
    for n in l..=r {
        let m = read_xml(&f.remove(&format!("results/{n}.xml")).ok_or(format!("{n}.xml is missing"))?).map_err(|e| format!("{n}.xml: {e}"))?;
        if m.len() != n {
            return Err(format!("{n}.xml: {} cities", m.len()));
        }
        for i in 0..n {
            for j in 0..n {
                if m[i][j] != full[i][j] {
                    return Err(format!("cities {i} and {j} have cost {:?} in {n}.xml and {:?} in {r}.xml", m[i][j], full[i][j]));
                }
            }
        }
    }
    match f.keys().next() {
        Some(x) => Err(format!("unexpected file {x}")),
        None => Ok(()),
    }
}
fn single(c: &mut Ctx, k: &mut Worker, format: &str, n: usize, w: &[f64]) -> Result<(), String> {
    let v = k.ask(c, json!({"kind": "main", "program": "simple_gen", "args": [format, n.to_string()], "draws": w}))?;
    if v["code"] != 0 {
        return Err(format!("exit status {}: {}", v["code"], v["why"]));
    }
    let drawn = v["drawn"].as_u64().unwrap() as usize;
    c.count("mc_states", drawn as u64);
    c.count("transitions", drawn as u64);
    let out = v["out"].as_str().unwrap();
    let m = if format.eq_ignore_ascii_case("xml") { read_xml(out)? } else { read_rust(out)? };
    judge_points(&m, n, w, drawn)
}
fn greedy(m: &M, start: usize, path: &[usize], cost: f64) -> Result<(), String> {
    let n = m.len();
    let mut seen = vec![false; n];
    if path.len() != n || path[0] != start {
        return Err(format!("path {path:?} from {start}"));
    }
    seen[start] = true;
    for p in path.windows(2) {
        if p[1] >= n || seen[p[1]] {
            return Err(format!("path {path:?} is no permutation"));
        }
        let best = (0..n).filter(|&x| !seen[x]).map(|x| m[p[0]][x]).fold(f64::INFINITY, f64::min);
        if m[p[0]][p[1]] != best {
            return Err(format!("path {path:?}: {} is not nearest to {}", p[1], p[0]));
        }
        seen[p[1]] = true;
    }
    let sum: f64 = (0..n).map(|i| m[path[i]][path[(i + 1) % n]]).sum();
    if (sum - cost).abs() > 1e-12 * sum {
        return Err(format!("cost {cost:?} of {path:?} with length {sum:?}"));
    }
    Ok(())
}
/// every assignment of `k` values to `len` places, the first one in this part
fn all(len: usize, k: usize, part: usize, mut f: impl FnMut(&[usize])) {
    let mut a = vec![0; len];
    a[0] = part;
    loop {
        f(&a);
        let mut p = len;
        loop {
            if p == 1 {
                return;
            }
            p -= 1;
            a[p] += 1;
            if a[p] < k {
                break;
            }
            a[p] = 0;
        }
    }
}
fn pattern(len: usize, s: usize) -> Vec<f64> {
    (0..len).map(|p| ((p * p * 7 + p * (3 + s) + s * s + p / 3) % 97) as f64 / 97.0).collect()
}
fn square(n: usize, v: &[f64]) -> M {
    let mut m = vec![vec![0.0; n]; n];
    let mut p = 0;
    for i in 0..n {
        for j in 0..i {
            m[i][j] = v[p];
            m[j][i] = v[p];
            p += 1;
        }
    }
    m
}
fn seen(tag: &str, w: &[f64]) {
    mcrt::drv::distinct(mcrt::fx::bytes(w.len() as u64, format!("{tag}{w:?}").as_bytes()));
}

fn main() {
    let mut s = Spec::new("C22", Level::ModelChecking);
    s.rule = "the utilities themselves run with every outcome of every random draw over a set of draws, for few cities, and with fixed \
              patterns for every larger size up to a bound; ranges of sizes and contents of the folder beforehand are enumerated; for the \
              conversions and the nearest-neighbour trace, all matrices over a set of costs and all starts"
        .into();
    s.assumptions = vec![
        "python3-vt with its numpy; the solver simple_gen.py calls is not installed and replaced by a stand-in (its result is unused)".into(),
        "draws are made through numpy.random or random".into(),
        "distances may differ by 3e-15 of their value from the reference formula; points are drawn coordinate by coordinate in either order".into(),
        "at least two cities, minimum size not above the maximum".into(),
    ];
    let t = mcrt::drv::tier() == Tier::Thorough;
    // (largest size, number of different draws)
    let mut plans = vec![(2usize, 5usize), (3, 3), (4, 2)];
    if t {
        plans = vec![(2, 6), (3, 5), (4, 3), (5, 2), (6, 2)];
    }
    for (r, k) in plans {
        for part in 0..k {
            s.unit(format!("series-{r}-{k}-{part}"), move |c| {
                let mut wk = Worker::new(&format!("s{r}-{k}-{part}"));
                let mut turn = 0;
                all(2 * r, k, part, |a| {
                    let w: Vec<f64> = a.iter().map(|&x| DRAWS[x]).collect();
                    for l in 2..=r {
                        turn += 1;
                        for b in if r == 2 { 0..BEFORE.len() } else { turn % BEFORE.len()..turn % BEFORE.len() + 1 } {
                            let tag = ["series", "series, stale results", "series, nested stale results", "series, other files"][b];
                            let mut case = vec![l as f64];
                            case.extend(&w);
                            c.begin(tag, &case);
                            seen(tag, &case);
                            if let Err(e) = series(c, &mut wk, l, r, &w, b) {
                                c.fail("series", format!("sizes {l} to {r}: {e}"));
                            }
                        }
                    }
                });
                c.sample(|| format!("sizes up to {r}, draws {:?}, every assignment", &DRAWS[..k]));
            });
            s.unit(format!("single-{r}-{k}-{part}"), move |c| {
                let mut wk = Worker::new(&format!("g{r}-{k}-{part}"));
                all(2 * r, k, part, |a| {
                    let w: Vec<f64> = a.iter().map(|&x| DRAWS[x]).collect();
                    for format in ["xml", "rust"] {
                        c.begin(format, &w);
                        seen(format, &w);
                        if let Err(e) = single(c, &mut wk, format, r, &w) {
                            c.fail("single", format!("{format}, {r} cities: {e}"));
                        }
                    }
                });
            });
        }
    }
    // every size and every range of sizes, points on a pattern
    for part in 0..4usize {
        s.unit(format!("ranges-{part}"), move |c| {
            let mut wk = Worker::new(&format!("r{part}"));
            for r in 2..=if t { 40usize } else { 20 } {
                for l in (2..=r).filter(|l| (l + r) % 4 == part) {
                    let w = pattern(2 * r, l);
                    c.begin("series: sizes", &[l as f64, r as f64]);
                    seen("sizes", &[l as f64, r as f64]);
                    if let Err(e) = series(c, &mut wk, l, r, &w, (l + r / 2) % BEFORE.len()) {
                        c.fail("series", format!("sizes {l} to {r}: {e}"));
                    }
                }
            }
            for n in (2..=if t { 70usize } else { 40 }).filter(|n| n % 4 == part) {
                for format in ["xml", "rust", "XML", "Rust"] {
                    let w = pattern(2 * n, 1);
                    c.begin(format, &[n as f64]);
                    seen(format, &[n as f64]);
                    if let Err(e) = single(c, &mut wk, format, n, &w) {
                        c.fail("single", format!("{format}, {n} cities: {e}"));
                    }
                }
            }
        });
    }
    s.unit("large", move |c| {
        let mut wk = Worker::new("large");
        for (l, r) in if t { vec![(98, 104), (150, 151), (62, 130)] } else { vec![(99, 101), (64, 66)] } {
            c.begin("series: sizes", &[l as f64, r as f64]);
            seen("sizes", &[l as f64, r as f64]);
            if let Err(e) = series(c, &mut wk, l, r, &pattern(2 * r, 5), 1) {
                c.fail("series", format!("sizes {l} to {r}: {e}"));
            }
        }
    });
    // wrong calls do not touch earlier results
    s.unit("usage", |c| {
        let mut wk = Worker::new("usage");
        let words = ["2", "3", "4", "xml", "rust", "", "-h"];
        let mut lists: Vec<Vec<&str>> = vec![vec![]];
        for i in words {
            lists.push(vec![i]);
            for j in words {
                for k in words {
                    lists.push(vec![i, j, k]);
                }
                if i.parse::<usize>().is_err() || j.parse::<usize>().is_err() {
                    lists.push(vec![i, j]);
                }
            }
        }
        for (x, args) in lists.iter().enumerate() {
            for program in ["benchmark_gen", "simple_gen"] {
                if program == "simple_gen" && args.len() == 2 && ["xml", "rust"].contains(&args[0]) && args[1].parse::<usize>().is_ok() {
                    continue;
                }
                c.begin(program, &[x as f64]);
                seen(program, &[x as f64]);
                let before: BTreeMap<&str, &str> = [("results/2.xml", "from before"), ("keep.txt", "from before")].into();
                let r = wk.ask(c, json!({"kind": "main", "program": program, "args": args, "draws": [], "before": before}));
                let e = match r {
                    Err(e) => Some(e),
                    Ok(v) if v["code"] == 0 => Some("exit status 0".into()),
                    Ok(v) if files(&v).iter().map(|(k, v)| (k.as_str(), v.as_str())).collect::<BTreeMap<_, _>>() != before => Some("files are changed".into()),
                    Ok(v) if v["out"].as_str().unwrap().contains("<graph") || v["out"].as_str().unwrap().contains("Graph {") => Some("prints an instance".into()),
                    Ok(_) => None,
                };
                if let Some(e) = e {
                    c.fail("usage", format!("{program} {args:?}: {e}"));
                }
            }
        }
    });
    // conversions of given matrices
    const COSTS: [f64; 8] = [0.0, 1.0, 0.1, 1.0 / 3.0, 123456789.125, 1e-300, 1.2345678901234567e300, 3.0];
    for part in 0..COSTS.len() {
        s.unit(format!("conversions-{part}"), move |c| {
            let mut wk = Worker::new(&format!("c{part}"));
            let mut cases: Vec<M> = vec![];
            if part == 0 {
                cases.extend(COSTS.iter().map(|&x| square(2, &[x])));
            }
            all(3, COSTS.len(), part, |a| cases.push(square(3, &a.iter().map(|&x| COSTS[x]).collect::<Vec<_>>())));
            if part < 3 {
                let k = if t { 4 } else { 3 };
                all(6, k, part, |a| cases.push(square(4, &a.iter().map(|&x| COSTS[x]).collect::<Vec<_>>())));
            }
            for m in cases {
                let n = m.len();
                let flat = m.concat();
                for int in [false, true] {
                    if int && flat.iter().any(|x| x.fract() != 0.0 || *x > 1e15) {
                        continue;
                    }
                    c.begin(if int { "Rust code, integers" } else { "Rust code" }, &flat);
                    seen("rust", &flat);
                    let j = if int { json!(m.iter().map(|r| r.iter().map(|&x| x as i64).collect::<Vec<_>>()).collect::<Vec<_>>()) } else { json!(m) };
                    let r = wk.ask(c, json!({"kind": "rust", "matrix": j, "int": int})).and_then(|v| read_rust(v["out"].as_str().unwrap()));
                    match r {
                        Err(e) => c.fail("rust", format!("{n} cities: {e}")),
                        Ok(got) if got != m => c.fail("rust", format!("{m:?} becomes {got:?}")),
                        Ok(_) => {}
                    }
                }
                c.begin("XML", &flat);
                seen("xml", &flat);
                let r = wk.ask(c, json!({"kind": "xml", "matrix": m})).and_then(|v| read_xml(v["out"].as_str().unwrap()));
                match r {
                    Err(e) => c.fail("xml", format!("{n} cities: {e}")),
                    Ok(got) => {
                        if got.len() != n || (0..n).any(|i| (0..n).any(|j| !near(got[i][j], m[i][j]))) {
                            c.fail("xml", format!("{m:?} becomes {got:?}"));
                        }
                    }
                }
            }
        });
    }
    // nearest-neighbour trace
    let mut plans = vec![(2usize, 3usize), (3, 3), (4, 3), (5, 2)];
    if t {
        plans = vec![(2, 4), (3, 4), (4, 4), (5, 3), (6, 2)];
    }
    for (n, k) in plans {
        for part in 0..k {
            s.unit(format!("trace-{n}-{k}-{part}"), move |c| {
                let mut wk = Worker::new(&format!("t{n}-{k}-{part}"));
                all(n * (n - 1) / 2, k, part, |a| {
                    for (int, costs) in [(true, [1.0, 2.0, 4.0, 9.0]), (false, [0.5, 0.0, 0.1, 1.0 / 3.0])] {
                        let m = square(n, &a.iter().map(|&x| costs[x]).collect::<Vec<_>>());
                        let j = if int { json!(m.iter().map(|r| r.iter().map(|&x| x as i64).collect::<Vec<_>>()).collect::<Vec<_>>()) } else { json!(m) };
                        for start in 0..n {
                            let mut case = vec![start as f64];
                            case.extend(m.concat());
                            c.begin("nearest-neighbour trace", &case);
                            seen("trace", &case);
                            let r = wk.ask(c, json!({"kind": "nn", "matrix": j, "int": int, "start": start})).and_then(|v| {
                                let path: Vec<usize> = v["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap_or(u64::MAX) as usize).collect();
                                greedy(&m, start, &path, v["cost"].as_f64().unwrap())
                            });
                            if let Err(e) = r {
                                c.fail("trace", e);
                            }
                        }
                    }
                });
            });
        }
    }
    // its random matrices
    let mut plans = vec![(1usize, 9usize), (2, 9), (3, 2)];
    if t {
        plans = vec![(1, 9), (2, 9), (3, 3), (4, 2)];
    }
    for (n, k) in plans {
        s.unit(format!("integers-{n}-{k}"), move |c| {
            let mut wk = Worker::new(&format!("i{n}-{k}"));
            for part in 0..k {
                all(n * n, k, part, |a| {
                    // the first, the last and evenly spaced integers of the range
                    let w: Vec<f64> = a.iter().map(|&x| if x + 1 == k { 1.0 - f64::EPSILON } else { x as f64 / k as f64 }).collect();
                    c.begin("random integers", &w);
                    seen("integers", &w);
                    let e = wk.ask(c, json!({"kind": "ints", "n": n, "draws": w})).and_then(|v| {
                        let m: M = serde_json::from_value(v["matrix"].clone()).map_err(|e| e.to_string())?;
                        let ok = m.len() == n
                            && (0..n).all(|i| m[i].len() == n && m[i][i] == 0.0)
                            && (0..n).all(|i| (0..n).all(|j| m[i][j] == m[j][i] && m[i][j].fract() == 0.0 && (i == j || m[i][j] > 0.0)));
                        if ok { Ok(()) } else { Err(format!("{m:?}")) }
                    });
                    if let Err(e) = e {
                        c.fail("integers", e);
                    }
                });
            }
        });
    }
    // the whole trace program: its graph, and one tour per city
    s.unit("trace-program", |c| {
        let mut wk = Worker::new("main");
        for x in 0..40usize {
            let w = pattern(100, x);
            c.begin("trace program", &[x as f64]);
            seen("program", &[x as f64]);
            let e = wk.ask(c, json!({"kind": "main", "program": "NN_approx", "args": [], "draws": w})).and_then(|v| {
                if v["code"] != 0 {
                    return Err(format!("exit status {}: {}", v["code"], v["why"]));
                }
                let out = v["out"].as_str().unwrap();
                let m = read_rust(out)?;
                let list = |l: &str| l.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse::<usize>().ok()).collect::<Vec<_>>();
                let paths: Vec<Vec<usize>> = out.lines().filter_map(|l| l.strip_prefix("Path:")).map(list).collect();
                let costs: Vec<f64> = out.lines().filter_map(|l| l.strip_prefix("Cost:")).filter_map(|x| x.trim().parse().ok()).collect();
                if paths.len() != m.len() || costs.len() != m.len() {
                    return Err(format!("{} paths and {} costs for {} cities", paths.len(), costs.len(), m.len()));
                }
                for (start, (p, w)) in paths.iter().zip(costs).enumerate() {
                    greedy(&m, start, p, w)?;
                }
                Ok(())
            });
            if let Err(e) = e {
                c.fail("program", e);
            }
        }
    });
    mcrt::drv::main(s)
}
