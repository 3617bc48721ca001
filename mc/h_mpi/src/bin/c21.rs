//! C21: distributed runs of the command line.
use clap::Parser;
use h_mpi::*;
use hx::cli::*;
use std::io::Write;
use std::rc::Rc;
use walky::cli::Cli;

#[derive(Clone, Copy)]
struct Bounds {
    msg: u32,
    data: u32,
}
#[allow(clippy::too_many_arguments)]
fn command(c: &mut Ctx, f: &Facts, path: &str, args: &[&str], e: &Expect, sizes: &[usize], sync: &[bool], prefs: bool, b: Bounds) {
    let line: Vec<String> = ["walky"]
        .iter()
        .chain(args)
        .map(|x| if *x == "FILE" { path.to_string() } else { x.to_string() })
        .collect();
    let cli = match Cli::try_parse_from(&line) {
        Ok(x) => x,
        Err(x) => return c.fail("command-line", format!("{args:?} is rejected: {x}")),
    };
    for &size in sizes {
        for &y in sync {
            for p in if prefs { preferences(size) } else { vec![vec![]] } {
                merge_shuffles(true);
                let x = explore(Limits::all().with(Kind::Msg, b.msg).with(Kind::Data, b.data), || {
                    mcrt::interpose::capture();
                    let r = run_with(size, y, &p, |_| {
                        let r = walky::run(cli.clone()).map_err(|e| e.to_string());
                        let _ = std::io::stdout().flush();
                        r
                    });
                    let log = mcrt::interpose::captured();
                    let check = || -> Result<(), String> {
                        let r = r?;
                        for (k, x) in r.iter().enumerate() {
                            if let Err(x) = x {
                                return Err(format!("process {k} fails: {x}"));
                            }
                        }
                        for k in 0..size {
                            let t: Vec<u8> = log.iter().filter(|x| x.0 == k).flat_map(|x| x.1.clone()).collect();
                            let t = String::from_utf8_lossy(&t);
                            judge(f, &t, e, false).map_err(|m| format!("process {k} {m}"))?;
                        }
                        // all requested results appear; the root has the whole answer
                        let t: Vec<u8> = log.iter().filter(|x| x.0 == 0).flat_map(|x| x.1.clone()).collect();
                        judge(f, &String::from_utf8_lossy(&t), e, true).map_err(|m| format!("the root process {m}"))
                    };
                    check().map_err(|m| format!("walky {}, {size} processes, {}: {m}", args.join(" "), mode(y)))
                });
                merge_shuffles(false);
                c.explored(args[0], &x);
            }
        }
    }
}

#[derive(Clone, Copy)]
struct Scale {
    /// beyond this many processes only default orders
    small: usize,
    exact: Bounds,
    data: u32,
}
fn every_command(c: &mut Ctx, n: usize, w: &[f64], sizes: &[usize], sync: &[bool], s: Scale) {
    no_stderr();
    let Input(_file, path) = &input(n, w);
    let f = facts(n, w);
    let all = u32::MAX;
    let (few, many): (Vec<usize>, Vec<usize>) = sizes.iter().partition(|x| **x <= s.small);
    for (sizes, wide) in [(&few, true), (&many, false)] {
        let b = if wide { s.exact } else { Bounds { msg: 0, data: 0 } };
        let exact = Expect { exact: true, ..NONE };
        for v in if n <= 9 { &["v0", "v1"][..] } else { &[] } {
            command(c, &f, path, &["exact", *v, "FILE", "-p", "mpi"], &exact, sizes, sync, b.msg != all, b);
        }
        let bounds: [(Option<&str>, bool, bool); 4] =
            [(None, false, false), (Some("one-tree"), true, false), (Some("mst"), false, true), (Some("mst-queue"), false, true)];
        for (l, one_tree, tree) in bounds {
            if n < 2 && l.is_some() {
                continue;
            }
            let mut a = vec!["approx", "nearest-neighbour", "FILE", "-p", "mpi"];
            a.extend(l.iter().flat_map(|l| ["-l", *l]));
            let x = Expect { nearest: true, one_tree, tree, ..NONE };
            command(c, &f, path, &a, &x, sizes, sync, false, Bounds { msg: if wide { all } else { 1 }, data: all });
            if n >= 2 && metric(n, w) {
                a[1] = "christofides";
                let x = Expect { christofides: true, one_tree, tree, ..NONE };
                command(c, &f, path, &a, &x, sizes, sync, false, Bounds { msg: 1, data: if wide && l.is_none() { s.data } else { 0 } });
            }
            if let Some(l) = l {
                let x = Expect { one_tree, tree, ..NONE };
                command(c, &f, path, &["lower-bound", l, "FILE", "-p", "mpi"], &x, sizes, sync, false, Bounds { msg: all, data: all });
            }
        }
    }
}

fn main() {
    let mut s = Spec::new("C21", Level::ModelChecking);
    s.rule = "commands: every exact, approximation and lower-bound command with the distributed mode, with and without each \
              additional lower bound; instances: all weightings over small alphabets, structured and residue families, read \
              from a document; one to more processes than cities, buffered and synchronous sends; message orders, reduction \
              orders and shuffle outcomes all (small instances) or up to a bounded number of deviations"
        .into();
    s.assumptions = vec![
        "costs finite; equality of sums up to relative 1e-9; Christofides' factor for metric instances of up to five cities".into(),
        "the C MPI library below the mpi crate follows the MPI standard".into(),
        "exact v2 to v6 do not offer the distributed mode".into(),
    ];
    s.case_cpu_s = 300;
    let t = mcrt::drv::tier() == Tier::Thorough;
    let all = u32::MAX;
    let mut p = Plan { chunk: 1, ..Plan::default() };
    for a in [TWO, FRAC, HUGE] {
        p.full.extend([(2, a), (3, a)]);
    }
    p.add(&mut s, "small ", Rc::new(move |c, _, n, w| {
        let exact = Bounds { msg: all, data: all };
        every_command(c, n, w, &[1, 2, 3, 4, n + 2], &EAGER, Scale { small: if n <= 2 { 4 } else { 3 }, exact, data: all });
    }));
    let mut p = Plan { chunk: 4, ..Plan::default() };
    p.plain = vec![4, 5, 6];
    p.residues = vec![(4, 48), (5, 24)];
    p.full = vec![(4, TWO)];
    if t {
        p.full.push((4, BIN));
        p.plain.extend([6, 7]);
        p.residues.extend([(6, 24)]);
    }
    p.add(&mut s, "larger ", Rc::new(move |c, _, n, w| {
        let exact = Bounds { msg: if t && n <= 4 { 2 } else { (n <= 4) as u32 }, data: 0 };
        let data = if t && n <= 4 { 3 } else { 1 };
        every_command(c, n, w, &[1, 2, 3, 4, n + 1], &[false], Scale { small: 3, exact, data });
        if n == 4 {
            every_command(c, n, w, &[2, 3], &[true], Scale { small: 3, exact: Bounds { msg: 0, data: 0 }, data: 0 });
        }
    }));
    let mut p = Plan { chunk: 1, ..Plan::default() };
    p.residues = vec![(7, 4), (8, 2), (12, 4), (20, 4), (33, 4), (65, 4)];
    p.add(&mut s, "large ", Rc::new(move |c, _, n, w| {
        let b = Bounds { msg: 0, data: 0 };
        every_command(c, n, w, &[2, 3, 5], &[false], Scale { small: 1, exact: b, data: 0 });
    }));
    mcrt::drv::main(s)
}
