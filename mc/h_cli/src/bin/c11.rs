//! C11: the command line.
use clap::Parser;
use hx::cli::*;
use hx::*;
use mcrt::choice::{explore, merge_shuffles, Kind, Limits};
use std::io::Write;
use std::process::{Command, Stdio};
use std::rc::Rc;
use walky::cli::Cli;

const LABELS: [&str; 6] = ["Cost", "Permutation", "weight", "solution", "bound", "Tour"];

/// every command; FILE stands for the input
fn commands() -> Vec<(Vec<&'static str>, Expect, bool)> {
    let mut out = vec![];
    let modes: [&[&str]; 3] = [&[], &["-p", "single-threaded"], &["-p", "multi-threaded"]];
    let bounds: [(Option<&str>, bool, bool); 4] =
        [(None, false, false), (Some("one-tree"), true, false), (Some("mst"), false, true), (Some("mst-queue"), false, true)];
    for m in modes {
        for v in ["v0", "v1", "v2", "v3", "v4", "v5", "v6"] {
            let mut a = vec!["exact", v, "FILE"];
            a.extend(m);
            out.push((a, Expect { exact: true, ..NONE }, false));
        }
        for (l, one_tree, tree) in bounds {
            for alg in ["nearest-neighbour", "christofides"] {
                let mut a = vec!["approx", alg, "FILE"];
                a.extend(m);
                a.extend(l.iter().flat_map(|l| ["-l", *l]));
                let christofides = alg == "christofides";
                let e = Expect { nearest: !christofides, christofides, one_tree, tree, ..NONE };
                out.push((a, e, christofides));
            }
            if let Some(l) = l {
                let mut a = vec!["lower-bound", l, "FILE"];
                a.extend(m);
                out.push((a, Expect { one_tree, tree, ..NONE }, false));
            }
        }
    }
    // other spellings of the options
    for (a, e, m) in out.clone() {
        let has = |x: &str| a.contains(&x);
        if has("-p") && (has("v3") || has("-l") || has("christofides")) {
            let long: Vec<&str> = a
                .iter()
                .map(|x| match *x {
                    "-p" => "--parallelism",
                    "-l" => "--lower-bound",
                    x => x,
                })
                .collect();
            out.push((long, e, m));
            // options first
            let mut first = vec![a[0]];
            first.extend(&a[3..]);
            first.extend(&a[1..3]);
            out.push((first, e, m));
        }
    }
    out
}
fn line(args: &[&str], path: &str) -> Vec<String> {
    args.iter().map(|x| if *x == "FILE" { path.to_string() } else { x.to_string() }).collect()
}

/// in this process: every outcome of the random draws and every split of the work within the budgets
fn inside(c: &mut Ctx, n: usize, w: &[f64], data: u32, steal: u32, cap: u64) {
    let input = input(n, w);
    let f = facts(n, w);
    let is_metric = metric(n, w);
    for (args, e, needs_metric) in commands() {
        if needs_metric && !is_metric || n > 9 && args[0] == "exact" {
            continue;
        }
        let mut l = line(&args, &input.1);
        l.insert(0, "walky".into());
        let cli = match Cli::try_parse_from(&l) {
            Ok(x) => x,
            Err(x) => {
                c.fail("command-line", format!("{args:?} is rejected: {x}"));
                continue;
            }
        };
        for cpus in if args.contains(&"multi-threaded") && args[0] == "exact" && n <= 6 { vec![1usize, 2, 3, 5] } else { vec![2] } {
            mcrt::interpose::set_cpus(cpus);
            let par = args.contains(&"multi-threaded");
            merge_shuffles(true);
            let x = explore(
                Limits::all().with(Kind::Data, if needs_metric { data } else { data.min(1) }).with(Kind::Steal, if par { steal } else { 0 }).cap(cap),
                || {
                    mcrt::interpose::capture_all();
                    let r = guard(|| walky::run(cli.clone()).map_err(|e| e.to_string()));
                    let _ = std::io::stdout().flush();
                    let t: Vec<u8> = mcrt::interpose::captured().into_iter().flat_map(|x| x.1).collect();
                    let t = String::from_utf8_lossy(&t);
                    match r {
                        Err(e) => Err(format!("panics: {e}")),
                        Ok(Err(e)) => Err(format!("fails: {e}")),
                        Ok(Ok(())) => judge(&f, &t, &e, true),
                    }
                    .map_err(|m| format!("walky {} ({cpus} hardware threads): {m}", args.join(" ")))
                },
            );
            merge_shuffles(false);
            mcrt::interpose::set_cpus(0);
            c.explored(args[0], &x);
        }
    }
}

struct Out {
    ok: bool,
    status: String,
    out: String,
    err: String,
}
fn program(args: &[String]) -> Out {
    let exe = std::env::current_exe().unwrap().with_file_name("walky_cli");
    let r = Command::new(exe).args(args).stdin(Stdio::null()).env_remove("MC_SCRIPT").env("RUST_BACKTRACE", "0").output();
    mcrt::drv::heartbeat();
    match r {
        Ok(r) => Out {
            ok: r.status.success(),
            status: r.status.to_string(),
            out: String::from_utf8_lossy(&r.stdout).into_owned(),
            err: String::from_utf8_lossy(&r.stderr).chars().take(400).collect(),
        },
        Err(e) => mcrt::choice::machinery_error(&format!("cannot start the program: {e}")),
    }
}
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let k = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let d = std::env::temp_dir().join(format!("c11-{}-{k}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap_or_else(|e| mcrt::choice::machinery_error(&format!("no scratch directory: {e}")));
        Scratch(d)
    }
    fn file(&self, name: &str, text: &[u8]) -> String {
        let p = self.0.join(name);
        std::fs::write(&p, text).unwrap_or_else(|e| mcrt::choice::machinery_error(&format!("no scratch file: {e}")));
        p.to_string_lossy().into_owned()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// as a process of its own
fn outside(c: &mut Ctx, n: usize, w: &[f64], name: &str) {
    let s = Scratch::new();
    let path = s.file(name, doc_of(n, w, |x| format!("{x}")).text().as_bytes());
    let f = facts(n, w);
    for (args, e, needs_metric) in commands() {
        if needs_metric && !metric(n, w) {
            continue;
        }
        c.count("executions", 1);
        c.count("processes", 1);
        let o = program(&line(&args, &path));
        let r = if !o.ok {
            Err(format!("{}: {}", o.status, o.err))
        } else {
            judge(&f, &o.out, &e, true)
        };
        if let Err(m) = r {
            c.fail("process", format!("walky {}: {m}", args.join(" ")));
        }
    }
}
fn refused(c: &mut Ctx, what: &str, path: &str) {
    for (args, _, _) in commands() {
        c.count("executions", 1);
        c.count("processes", 1);
        let o = program(&line(&args, path));
        if o.ok {
            c.fail("invalid-accepted", format!("walky {} succeeds on {what}; it prints {:?}", args.join(" "), o.out));
        }
        if let Some(l) = o.out.lines().find(|l| LABELS.iter().any(|x| l.contains(x))) {
            c.fail("invalid-result", format!("walky {} prints {l:?} for {what}", args.join(" ")));
        }
    }
}
fn text(rows: &[Vec<(f64, usize)>]) -> String {
    Doc::new(rows.iter().map(|r| r.iter().map(|e| (format!("{}", e.0), e.1.to_string())).collect()).collect()).text()
}

fn main() {
    let mut s = Spec::new("C11", Level::ModelChecking);
    s.rule = "commands: every subcommand x algorithm x parallelism option x additional lower bound, with other spellings and \
              orders of the options; instances: all weightings over small alphabets, structured and residue families read from \
              documents; in-process runs under every outcome of the random draws, work splits within the budget and several \
              numbers of hardware threads, and separate processes for output and exit status; invalid inputs: missing, empty, \
              directory, truncated, binary, and every kind of graph that is no complete simple undirected graph"
        .into();
    s.assumptions = vec![
        "costs finite; equality of sums up to relative 1e-9; Christofides for metric instances, its factor for up to five cities".into(),
        "at least two cities".into(),
    ];
    let t = mcrt::drv::tier() == Tier::Thorough;
    let mut p = Plan { chunk: 8, ..Plan::default() };
    for a in [TWO, INT3, FRAC, HUGE, BIGM] {
        p.full.extend([(2, a), (3, a)]);
    }
    p.full.push((4, TWO));
    p.add(&mut s, "small ", Rc::new(|c, _, n, w| inside(c, n, w, u32::MAX, 1, 20_000)));
    let mut p = Plan { chunk: 8, ..Plan::default() };
    p.plain = vec![5, 6, 7];
    p.residues = vec![(5, 48), (6, 12), (7, 8)];
    if t {
        p.full = vec![(4, INT3), (4, FRAC)];
        p.plain.push(8);
        p.residues = vec![(5, 240), (6, 120), (7, 48), (8, 12)];
    }
    p.add(&mut s, "larger ", Rc::new(move |c, _, n, w| inside(c, n, w, if n <= 5 { u32::MAX } else { 1 }, if t { 1 } else { 0 }, if t { 100_000 } else { 2_000 })));
    let mut p = Plan { chunk: 1, ..Plan::default() };
    p.residues = vec![(8, 4), (12, 24), (16, 12), (33, 12), (65, 12), (130, 6)];
    p.add(&mut s, "large ", Rc::new(move |c, _, n, w| inside(c, n, w, 0, 0, 20_000)));
    let mut p = Plan { chunk: 1, ..Plan::default() };
    p.plain = if t { vec![2, 3, 5, 7, 8] } else { vec![2, 5] };
    p.residues = vec![(3, 4), (4, 8), (6, 4)];
    p.add(&mut s, "process ", Rc::new(|c, _, n, w| outside(c, n, w, "instance.xml")));
    s.unit("names", |c| {
        let w = residue_k(4, 5);
        for name in ["a b.xml", "noextension", "ünïcode.xml", "UPPER.XML", "x.txt", "-dash.xml", "semi;colon.xml", "per%20cent"] {
            c.begin(&format!("file name {name:?}"), &w);
            mcrt::drv::distinct(mcrt::fx::bytes(3, name.as_bytes()));
            outside(c, 4, &w, name);
        }
    });
    s.unit("unreadable", |c| {
        let d = Scratch::new();
        let dir = d.0.to_string_lossy().into_owned();
        for (what, path) in [
            ("a missing file", d.0.join("missing.xml").to_string_lossy().into_owned()),
            ("a directory", dir.clone()),
            ("a file in a missing directory", format!("{dir}/no/such.xml")),
            ("an empty path", String::new()),
            ("a path through a file", format!("{}/x", d.file("plain", b"x"))),
        ] {
            c.begin(what, &[]);
            mcrt::drv::distinct(mcrt::fx::bytes(4, what.as_bytes()));
            refused(c, what, &path);
        }
        let full = doc_of(3, &[1.0, 2.0, 2.5], |x| format!("{x}")).text();
        let mut latin = full.clone().into_bytes();
        let at = full.find("some").unwrap();
        latin[at] = 0xe9;
        for (what, text) in [
            ("an empty file", vec![]),
            ("white space only", b"  \n\n".to_vec()),
            ("plain text", b"hello".to_vec()),
            ("zero bytes", vec![0; 64]),
            ("bytes that are not UTF-8", latin),
            ("another XML document", b"<a><b>1</b></a>".to_vec()),
            ("a document without a graph", full.replace("graph", "grph").into_bytes()),
            ("a TSPLIB file", b"NAME : x\nTYPE : TSP\nDIMENSION : 2\nEOF\n".to_vec()),
        ] {
            let p = d.file("bad.xml", &text);
            c.begin(what, &[]);
            mcrt::drv::distinct(mcrt::fx::bytes(5, &text));
            refused(c, what, &p);
        }
    });
    s.unit("truncated", move |c| {
        let d = Scratch::new();
        let full = doc_of(3, &[1.0, 2.0, 2.5], |x| format!("{x}")).text();
        let end = full.find("</graph>").unwrap();
        let mut k = 0;
        while k < end {
            c.begin("a truncated document: bytes kept", &[k as f64]);
            mcrt::drv::distinct(k as u64);
            let p = d.file("bad.xml", &full.as_bytes()[..k]);
            refused(c, &format!("a document cut off after {k} bytes"), &p);
            k += if t { 5 } else { 29 };
        }
    });
    for n in [2usize, 3, 5] {
        s.unit(format!("invalid-{n}"), move |c| {
            let d = Scratch::new();
            let base: Vec<Vec<(f64, usize)>> = (0..n).map(|i| (0..n).filter(|&j| j != i).map(|j| (2.0 + ((i + j) % 3) as f64, j)).collect()).collect();
            let mut all: Vec<(String, Vec<Vec<(f64, usize)>>)> = vec![];
            for i in [0, n - 1] {
                let e = if n > 2 { 1 } else { 0 };
                let mut edit = |what: &str, f: &dyn Fn(&mut Vec<(f64, usize)>)| {
                    let mut m = base.clone();
                    f(&mut m[i]);
                    all.push((format!("{n} cities, {what} at city {i}"), m));
                };
                edit("an edge missing", &|r| {
                    r.remove(e);
                });
                edit("an edge doubled", &|r| r.push(r[e]));
                edit("a self-loop", &|r| r.push((1.0, i)));
                edit("a self-loop instead of an edge", &|r| r[e].1 = i);
                edit("an edge to nowhere", &|r| r[e].1 = n + 3);
                edit("an edge doubled instead of another", &|r| r[0].1 = r[r.len() - 1].1);
                edit("different costs in the two directions", &|r| r[e].0 += 0.5);
                edit("slightly different costs in the two directions", &|r| r[e].0 = f64::from_bits(r[e].0.to_bits() + 1));
            }
            for (what, m) in all {
                if valid_rows(&m) {
                    continue;
                }
                c.begin(&what, &[]);
                let x = text(&m);
                mcrt::drv::distinct(mcrt::fx::bytes(6, x.as_bytes()));
                let p = d.file("bad.xml", x.as_bytes());
                refused(c, &what, &p);
            }
            for (what, from, to) in [("a cost that is no number", "cost=\"2\"", "cost=\"two\""), ("an empty cost", "cost=\"2\"", "cost=\"\""), ("a negative target", ">1<", ">-1<"), ("a fractional target", ">1<", ">1.5<")] {
                let full = text(&base);
                let x = full.replacen(from, to, 1);
                if x == full {
                    continue;
                }
                c.begin(what, &[n as f64]);
                mcrt::drv::distinct(mcrt::fx::bytes(7, x.as_bytes()));
                let p = d.file("bad.xml", x.as_bytes());
                refused(c, what, &p);
            }
        });
    }
    mcrt::drv::main(s)
}
